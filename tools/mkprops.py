#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
EC="src/ecos.c"
prop("C01","A status is only reported when the measures that justify it hold",
 "When a solve reports optimal, primal infeasible or dual infeasible, the residuals, gap and infeasibility measures it reports with that status satisfy the tolerances the user set for that status, and a 'close to' status is reported only when they satisfy the user's reduced tolerances; an undefined (NaN) measure never counts as satisfied, and the reported infeasibility flags match the status. Conversely a solve stops with the full-accuracy status at the first iterate whose measures satisfy it, and reports iteration-limit, numerical-trouble, left-the-cone or interrupted only when the returned point does not even satisfy the reduced tolerances.",
 ["inputs","configurations","histories"],
 "every sequence of iterate measures (all IEEE doubles incl. NaN/Inf/negative) an interior-point run can produce, every setting of the six tolerances and the iteration limit, on every exit path",
 "The test problems visit a few dozen benign measure values and default tolerances; boundary cases, NaN measures, user tolerances and most exit paths (safeguard, interruption, NaN dead end, line-search failure) are never reached with an oracle on the reported measures.",
 [EC],[("termination test in two precisions",EC+": checkExitConditions"),("main loop exit paths",EC+": ECOS_solve")],
 observe=["return value of ECOS_solve","info struct (pres,dres,gap,relgap,pinfres,dinfres,pinf,dinf)"])
prop("C02","Reported statistics are the documented measures of the point",
 "For every iterate, the reported objective values, gap, relative gap, complementarity measure, kappa/tau ratio, primal and dual residuals and infeasibility-certificate residuals equal (in exact arithmetic) their documented definitions evaluated on the problem data and that iterate. Equality-constraint terms are included exactly when the problem has equality constraints, and undefined measures are reported as NaN.",
 ["inputs","configurations"],
 "all values of data (A,G,c,h,b), iterate (x,y,s,z,tau,kappa) and data norms, for a set of small dimensions and cone structures with and without equalities",
 "Tests only compare exit codes and objective values of a few problems; a wrong normalisation, a dropped term or a swapped norm still converges on them.",
 [EC,"src/spla.c"],[("residuals",EC+": computeResiduals"),("statistics",EC+": updateStatistics"),("sparse kernels","src/spla.c")],
 observe=["info struct","residual vectors"])
prop("C03","The returned point and its statistics are one coherent iterate of this solve",
 "The returned x, y, s, z together with the reported objective, residual and gap values always describe one and the same iterate that this solve itself produced: whenever the solver falls back to an earlier iterate, the point and all its reported measures fall back together. Nothing returned comes from uninitialised memory, from an earlier solve on the same workspace, or from a mixture of iterates, and the iterate fallen back to is the best-so-far one the solver has recorded.",
 ["histories","inputs","configurations"],
 "every exit path and every sequence of measures over a bounded number of iterations, on a first solve and on a repeated solve with arbitrary leftovers in the workspace, including iteration limit 0, interruption or NaN at the first iterate",
 "Tests look at converged solves of fresh workspaces; falling back happens only in numerical trouble, with the limit or an interruption hit, and staleness only in particular histories.",
 [EC],[("save/restore of the best iterate",EC+": saveIterateAsBest, restoreBestIterate, compareStatistics"),("fallback sites",EC+": ECOS_solve")],
 state=[("best_*","best iterate seen so far","include/ecos.h: pwork")],observe=["x,y,s,z,info after ECOS_solve"])
prop("C04","A solve leaves caller data and process state as it found them",
 "After a solve ends, on every exit path, the caller's cost vector and right-hand sides are what they were before the solve (up to rounding), the returned point is expressed in the caller's original (unscaled) variables, the interrupt-signal handler in force before the solve is back in force, and the solve time of this solve has been recorded. A later solve on the same workspace therefore starts from the same data.",
 ["histories","fault_sequences","configurations"],
 "every exit path (success, certificate, iteration limit, numerical trouble, factorisation failure in initialisation or in the loop, leaving the cone, interruption), arbitrary positive equilibration factors",
 "Tests end almost always with optimal; the failing-factorisation and left-the-cone exits are not reached, and no test inspects the cost vector or the signal disposition afterwards.",
 [EC,"src/ctrlc.c"],[("epilogue of the solver",EC+": ECOS_solve, backscale"),("signal handler install/remove","src/ctrlc.c: init_ctrlc, remove_ctrlc")],
 observe=["w->c, w->b, w->h","sigaction(SIGINT)","info->tsolve"])
prop("C05","Work is bounded by the limits set and an interrupt stops the solver promptly",
 "A solve computes at most as many search-direction steps as the user's iteration limit, reports the number of steps it actually took, never takes more refinement steps per linear solve than the refinement limit nor more backtracking trials per line search than the backtracking limit, and terminates. Once an interrupt signal has been delivered during a solve, no further step is taken after the next termination check, and the interrupted status (or a better one) is returned; an interrupt delivered in one solve does not affect a later solve.",
 ["schedules","configurations","inputs","fault_sequences"],
 "every iteration/refinement/backtracking limit up to a bound (including 0), every iteration at which a signal may arrive, every outcome of the numeric kernels",
 "Tests use default limits on problems converging in 20 iterations; limits 0/1, interrupts, and lines searches that never succeed are not exercised.",
 [EC,"src/ctrlc.c","src/kkt.c"],[("iteration loop",EC+": ECOS_solve"),("interrupt polling","src/ctrlc.c"),("refinement loop","src/kkt.c: kkt_solve"),("backtracking loop",EC+": expConeLineSearch")],
 observe=["info->iter, nitref1..3, affBack, cmbBack","return code"])
prop("C06","The symmetric-cone line search never leaves the cone",
 "Starting from a scaled point strictly inside the linear and second-order cones with tau, kappa > 0, the step length returned keeps the scaled slack, the scaled multiplier, tau and kappa inside (strictly inside when multiplied by the damping factor < 1) whenever it is above the documented minimum step, for any search direction and any combination of cones. It always lies between the documented minimum and maximum step, and is not needlessly short: if it is below both the maximum and some cone's boundary, shrinking it was required by some cone, tau or kappa.",
 ["inputs","configurations"],
 "all scaled points in the interior, all directions, all tau, kappa > 0 and their directions, for small cone structures (orthant, one and several second-order cones of dimension up to 3, mixed)",
 "A step formula that is wrong in a corner (sign of a direction, second cone's offset, kappa ignored) still converges on the test problems thanks to the safeguards.",
 [EC],[("line search",EC+": lineSearch")],observe=["step returned; s,z,tau,kappa after the step"])
prop("C07","Exponential-cone line search only accepts interior, centred points",
 "When the backtracking line search for problems with exponential cones accepts a step, the trial point at that undamped step lies in every exponential cone and dual exponential cone, lies strictly inside the linear and second-order cones with positive tau and kappa, no exponential cone's complementarity product is below the documented fraction of the average, and the centrality bound set by the user holds; otherwise it backtracks by the user's factor and finally reports failure, which the solver handles by falling back. The cone-membership tests accept exactly the documented cones.",
 ["inputs","configurations"],
 "all trial points (including ones outside the symmetric cones), all directions, every outcome of the barrier evaluation, one or several exponential cones mixed with linear and second-order cones, all backtracking limits up to a bound",
 "Only four exponential-cone problems are tested, all well-behaved; a membership test with a wrong sign or a loop that skips the last cone is hidden by backtracking slack.",
 [EC,"src/expcone.c","src/cone.c"],[("exp line search",EC+": expConeLineSearch"),("cone membership","src/expcone.c: evalExpPrimalFeas, evalExpDualFeas"),("symmetric barrier","src/cone.c: evalSymmetricBarrierValue")],
 observe=["accepted step"])
prop("C08","The starting point is strictly inside the cones",
 "For any problem, the initial slack and multiplier vectors handed to the interior-point loop lie strictly inside their cones, tau and kappa start at one, and without exponential cones they equal the least-squares residuals shifted by a multiple of the cone's identity only as far as needed to be interior (no more than one plus the worst violation). With exponential cones the start is the cone's fixed central point.",
 ["inputs","configurations"],
 "all residual vectors, for small mixes of linear, second-order and exponential cones in any number",
 "Test problems start from a handful of residual vectors; a cone that is skipped, or a shift that lands on the boundary, shows only for particular vectors.",
 ["src/cone.c",EC],[("shift into the cone","src/cone.c: bring2cone"),("unit start","src/cone.c: unitInitialization"),("initialisation",EC+": init")],
 observe=["s,z,tau,kappa at iteration 0"])
prop("C09","All forms of the cone scaling describe one Nesterov-Todd scaling",
 "For every strictly interior pair of slack and multiplier, the scaling computed satisfies its definition: applying it to the multiplier and its inverse to the slack gives the same scaled point, applying and un-applying are inverse to each other, and the squared scaling that enters the KKT matrix and the residual of its solves (in the sparse expanded representation of second-order cones) is exactly that scaling applied twice. A pair outside a second-order cone is reported as outside, and each cone's scaling acts on its own components only.",
 ["inputs","configurations"],
 "all interior slack/multiplier pairs and all vectors applied to, for orthants and second-order cones of dimension 1 to 3 and mixes of them (exact arithmetic, values above the division safeguard)",
 "The interior-point iteration is self-correcting: a slightly wrong scaling costs iterations or accuracy rather than failing a test, and tests never evaluate the identities.",
 ["src/cone.c","src/kkt.c"],[("scaling update","src/cone.c: updateScalings"),("apply / invert","src/cone.c: scale, unscale, scale2add"),("copy to KKT","src/kkt.c: kkt_update")],
 observe=["lambda, W z, W^-1 s, KKT scaling block"])
prop("C10","Cone product and division are the Jordan-algebra operations and inverse",
 "The cone product of two vectors is the documented componentwise / second-order Jordan product for every cone in the problem, and dividing by a vector strictly inside the cone is its exact inverse: u o (u \\ w) = w and u \\ (u o v) = v, cone by cone.",
 ["inputs","configurations"],"all vectors (u interior for division), cones of dimension 1 to 4 and mixes of several cones, exact arithmetic",
 "No unit test evaluates these operations; errors only change search directions and are absorbed by the iteration.",
 ["src/cone.c"],[("product/division","src/cone.c: conicProduct, conicDivision")],observe=["w = u o v, v = u \\ w"])
prop("C11","Exponential-cone gradient, Hessian and barrier value are consistent",
 "The gradient and Hessian used for the dual exponential cone are exactly the first and second derivative of the documented dual barrier at every interior point (hence satisfy the logarithmic-homogeneity identities), the Hessian is symmetric and scaled by the given mu, applying it to vectors uses that same matrix for every exponential cone, and the barrier value used in the centrality test is the sum of the documented primal and dual barriers over all cones.",
 ["inputs","configurations"],"all interior points and all mu > 0, one to three exponential cones at any offset; exact arithmetic with the logarithm and the omega function as exact functions",
 "A wrong second-derivative entry still gives a descent-like direction; the four tested problems converge anyway.",
 ["src/expcone.c"],[("derivatives","src/expcone.c: evalExpHessian, evalExpGradient"),("barrier","src/expcone.c: evalBarrierValue"),("apply","src/expcone.c: scaleToAddExpcone")],observe=["g, v, barrier value"])
prop("C12","Setup builds exactly the documented KKT matrix for every sparsity pattern",
 "For every dimensions, cone structure and sparsity pattern of A and G, the (permuted) KKT matrix built at setup equals the documented regularised matrix [[dI, A', G'],[A,-dI,0],[G,0,-V]] of the equilibrated data with the sparse second-order-cone expansion, is upper triangular and well formed, carries the right pivot-sign pattern, and the recorded positions of every A entry, G entry and scaling entry point to exactly that entry. Initialising or updating the scaling block changes only that block.",
 ["inputs","configurations"],"all sparsity patterns of A and G up to small dimensions, all values, all small mixes of linear, second-order and exponential cones",
 "Tests use ~35 fixed patterns; a misplaced index in rarely combined structures (empty rows/columns, several cones, no equalities, exp+soc) is not sampled, and a wrong entry is partly repaired by iterative refinement.",
 ["src/preproc.c","src/kkt.c","src/splamm.c"],[("assembly","src/preproc.c: createKKT_U, ECOS_setup"),("scaling block","src/kkt.c: kkt_init, kkt_update"),("permutation","src/splamm.c: permuteSparseSymmetricMatrix")],
 observe=["permuted KKT matrix, sign vector, index maps"])
prop("C13","Fill-reducing ordering is always a valid permutation",
 "For every symmetric sparsity pattern the ordering phase terminates, stays within the memory it was given and returns a permutation of all indices; malformed column structures are rejected with the documented status and unsorted or duplicate entries are accepted as documented.",
 ["inputs"],"all patterns of matrices up to a small order (symbolic pattern), including malformed column pointers and row indices",
 "Quotient-graph bookkeeping bugs (element absorption, mass elimination, supervariables, garbage collection) need particular patterns; the suite has ~35.",
 ["external/amd/src/amd_order.c","external/amd/src/amd_2.c","external/amd/src/amd_1.c","external/amd/src/amd_aat.c","external/amd/src/amd_valid.c","external/amd/src/amd_preprocess.c","external/amd/src/amd_postorder.c","external/amd/src/amd_post_tree.c"],
 [("ordering","external/amd/src: AMD_order and helpers")],observe=["P returned by AMD_order; memory accesses"])
prop("C14","The LDL' factorisation reproduces the KKT matrix and its pivot signs",
 "For every symmetric matrix pattern and values, the symbolic analysis predicts exactly the space the numeric factorisation fills, the computed unit-lower-triangular L and diagonal D satisfy L D L' = the matrix except on diagonals where the dynamic regularisation acted, and after it every pivot has the prescribed sign and magnitude above the threshold. The triangular and diagonal solves with L and D are exact inverses of multiplying by them.",
 ["inputs","configurations"],"all values for every pattern of order up to 4 (and selected larger ones), every sign vector, every threshold and regularisation value; exact arithmetic",
 "Iterative refinement masks factorisation errors in the tests; dynamic regularisation rarely triggers there.",
 ["external/ldl/src/ldl.c","src/kkt.c"],[("symbolic","external/ldl/src/ldl.c: LDL_symbolic2"),("numeric with regularisation","external/ldl/src/ldl.c: LDL_numeric2"),("solves","external/ldl/src/ldl.c: LDL_lsolve2, LDL_dsolve, LDL_ltsolve")],
 observe=["L, D, solution vectors"])
prop("C15","KKT solves return the permuted-back solution and refinement never makes it worse",
 "The search direction returned by a linear solve is the solution of the unpermuted KKT system for the given right-hand side with the current scaling (in exact arithmetic with an exact factorisation its residual is zero and no refinement is done), its parts x, y, z land in the right components for every cone structure, and a refinement step that increases the residual is undone. Refinement stops at the limit set and the reported count is the number of corrections kept.",
 ["inputs","configurations"],"all right-hand sides, scalings and data values for small structures with/without equalities, orthant, second-order and exponential cones; arbitrary (even wrong) factors for the refinement logic",
 "The residual that steers the refinement is never inspected by tests; with an accurate factorisation refinement is idle, so errors in it stay invisible.",
 ["src/kkt.c","src/cone.c"],[("solve + refinement","src/kkt.c: kkt_solve"),("unpermute","src/cone.c: unstretch"),("residual of scaling block","src/cone.c: scale2add")],
 observe=["dx,dy,dz and nitref"])
prop("C16","Equilibration is an exact, cone-respecting, reversible change of variables",
 "Equilibrating the data divides every entry of A and G by the product of positive row and column factors and the right-hand sides by the row factors, uses one common factor for all rows of a second-order or exponential cone, and leaves the sparsity pattern untouched; undoing it restores the original data exactly (in exact arithmetic). Un-scaling a solution of the equilibrated problem gives a solution of the original one with the same objective.",
 ["inputs","configurations"],"all data values (including zero rows and columns) for small patterns and cone mixes with and without equalities; exact arithmetic",
 "Tests never inspect the equilibrated data; non-uniform scaling in a cone or a missed row still solves most test problems, and restoring is only exercised by update/cleanup on a few.",
 ["src/equil.c",EC],[("equilibrate/undo","src/equil.c: set_equilibration, unset_equilibration"),("solution scaling",EC+": backscale")],
 observe=["A,G,h,b after set/unset; x,y,s,z after solve"])
prop("C17","Updating data is equivalent to a fresh setup with that data",
 "After updating the numerical data of a workspace (all data, or single right-hand-side or cost entries), the workspace represents exactly the problem a fresh setup with the new data and the same pattern would represent: same equilibrated matrices, right-hand sides, scaling factors and KKT entries; the caller's previously supplied arrays are given back unscaled when new arrays are supplied. This holds with or without equality constraints and after any sequence of updates and solves.",
 ["histories","inputs","configurations"],"all old and new data values for small patterns, histories of up to three updates, new arrays or the same arrays updated in place, problems with no equalities and/or several cones",
 "One test updates one problem with equality constraints; other combinations (no equalities, in-place update, repeated updates, cones) are not sampled.",
 [EC,"src/equil.c"],[("update",EC+": ECOS_updateData, ecos_updateDataEntry_h, ecos_updateDataEntry_c")],observe=["w->G,A,c,h,b, equilibration vectors, KKT values"])
prop("C18","Sparse linear-algebra kernels compute the mathematical operation",
 "For every matrix pattern (including empty matrices, rows and columns) and all values, the sparse matrix-vector and transposed products with each documented mode (assign / add / subtract, skip diagonal), transposition with its index map, symmetric permutation, norms and inner products compute exactly the mathematical result, write nothing else and read nothing uninitialised.",
 ["inputs"],"all patterns up to 3x3 and all values, all mode flags; exact arithmetic",
 "Modes and degenerate patterns that the solver uses rarely (empty columns, no nonzeros) are not in the tests, and no test calls the kernels directly.",
 ["src/spla.c","src/splamm.c"],[("kernels","src/spla.c"),("matrix management","src/splamm.c")],observe=["output arrays"])
prop("C19","Branch and bound returns a true integer optimum whatever the relaxations do",
 "Provided every relaxation is answered honestly (optimal, infeasible or unbounded, possibly to reduced accuracy; not an iteration limit or numerical failure), mixed-integer solving that reports optimal returns an integer-feasible point whose objective is within the gap tolerances of the best integer-feasible objective, and reports infeasible only when no integer-feasible point exists. No branching strategy, order of exploration, pruning or accuracy-reduced node status may lose the optimum, also when the same workspace is solved again.",
 ["inputs","configurations","schedules"],"every objective assignment to the integer grid (incl. infeasible points) and every admissible relaxation behaviour (bound, fractional or integral optimum, rounded result), for up to 3 integer variables of small range, all branching and node-selection strategies",
 "Ten fixed instances cannot enumerate node orders; pruning errors need a specific ordering of bounds.",
 ["ecos_bb/ecos_bb.c"],[("search loop","ecos_bb/ecos_bb.c: ECOS_BB_solve, get_bounds, branch"),("pruning/selection","ecos_bb/ecos_bb.c: get_next_node, should_continue"),("strategies","ecos_bb/ecos_bb.c: get_branch_var_*")],
 observe=["return code, prob->x, info->pcost"])
prop("C20","Integrality is imposed on exactly the variables the user named",
 "Every relaxation solved while branching is the user's problem with only the current node's bounds added, each bound on exactly the variable it belongs to, whatever the order and interleaving of the boolean and integer index lists; single-entry updates of right-hand side change exactly the user's row. (Strong branching may tighten a node by bounds whose complement it has found infeasible or too expensive.) The augmented problem owns its copies of the inequality matrix and right-hand side, and the caller's G, h and index arrays are not modified.",
 ["inputs","configurations"],"all small patterns, index lists in any order, boolean/integer mixes, positive and negative bounds",
 "Tests use boolean indices before integer ones in ascending order; other orders map bounds to the wrong variables silently.",
 ["ecos_bb/ecos_bb_preproc.c","ecos_bb/ecos_bb.c"],[("augmentation","ecos_bb/ecos_bb_preproc.c: socp_to_ecos_bb"),("node bounds","ecos_bb/ecos_bb.c: set_prob"),("entry updates","ecos_bb/ecos_bb.c: updateDataEntry_h/_c")],
 observe=["arrays passed to the conic solver for every node"])
prop("C21","Mixed-integer status, bounds and limits are honest",
 "The mixed-integer status reflects the search: 'optimal' only if an integral point was found and the bounds met the gap tolerances or the tree was exhausted, 'maximum nodes' with or without solution according to whether the node and rounding relaxations found an integral point, 'infeasible' only after exhausting the tree, 'unbounded' exactly if the root relaxation is unbounded; whenever a solution is reported the returned point is one that was actually found. At most the permitted number of nodes is explored, and no memory outside the node storage sized for that limit is touched.",
 ["configurations","inputs","schedules"],"all node limits from 1 to a bound, all relaxation behaviours, all strategies; up to 3 integer variables",
 "Tests run ten instances to completion with default limits; small limits, late incumbents and infeasible/unbounded relaxations in the tree are not sampled.",
 ["ecos_bb/ecos_bb.c"],[("return codes","ecos_bb/ecos_bb.c: get_ret_code, should_continue"),("bounds","ecos_bb/ecos_bb.c: get_bounds, get_global_L")],observe=["return code, prob->x, info, number of relaxations"])
prop("C22","Setup, solve and cleanup are memory-safe, leak-free and reject bad dimensions",
 "For every dimensions, cone structure and pattern within the documented interface, setup, repeated solves, data updates and cleanup never touch memory outside their blocks, after its release, or uninitialised memory, free everything exactly once (except the vectors the caller asked to keep), and leave the caller's arrays allocated and, after cleanup, unscaled. Problems whose cone dimensions do not add up to the number of rows, and matrices with duplicate entries, are rejected with a null workspace, without leaking and with the caller's data unchanged. The same holds for branch-and-bound workspaces.",
 ["inputs","configurations","histories"],"all patterns up to small dimensions, all cone mixes, all keep-vars values, single-solver and branch-and-bound workspaces, error paths; full solves on representative numbers",
 "Memory errors need particular structures (no equalities, no linear cone, zero nonzeros, several exponential cones); the suite samples few and runs without checkers.",
 ["src/preproc.c","ecos_bb/ecos_bb_preproc.c","src/splamm.c"],[("allocation","src/preproc.c: ECOS_setup, ECOS_cleanup"),("BB allocation","ecos_bb/ecos_bb_preproc.c: ECOS_BB_setup, ECOS_BB_cleanup")],observe=["heap state"])
prop("C23","Each iteration takes a true Newton step on the homogeneous embedding",
 "Given exact linear solves, one iteration moves the iterate along a direction that satisfies the documented linearised optimality system: with step a and centering s the linear residuals (primal, dual, cone and the tau-kappa equation) are multiplied exactly by 1-a(1-s), and the linearised complementarity equation with second-order correction holds for every cone and for tau-kappa. The centering parameter is the documented function of the affine step, within its limits.",
 ["inputs","configurations"],"all iterates, residuals, data and linear-solve results satisfying the KKT system, for small structures (orthant, second-order, exponential; with and without equalities); exact arithmetic",
 "A wrong sign or missing term in a right-hand side slows or perturbs convergence but the safeguards and tolerances of the test problems hide it.",
 [EC,"src/cone.c"],[("right-hand sides",EC+": RHS_affine, RHS_combined"),("direction assembly and update",EC+": ECOS_solve")],observe=["iterate after one step"])
prop("C24","A solve depends on the problem only, not on workspace history",
 "Setting up and solving the same problem gives the same result whatever the initial contents of freshly allocated memory, and solving again with the conic solver on the same workspace with the same data (unchanged, or changed and changed back by a data update) starts from and repeats the same computation: no result depends on leftovers of earlier solves or on uninitialised storage. (The pseudocosts a branch-and-bound workspace learns are kept on purpose and are outside this statement.)",
 ["histories","inputs"],"all contents of scratch and leftover state (symbolic), for representative problem instances of every cone type in IEEE arithmetic, with equilibration factors that are powers of two; repeated solves",
 "A test sees one heap content and one history; dependence on leftovers appears only for unlucky contents.",
 [EC,"src/preproc.c","src/kkt.c"],[("initialisation",EC+": init"),("setup","src/preproc.c: ECOS_setup")],observe=["iterates and info of two runs"])
prop("C25","Omega function used in the exponential barrier is accurate",
 "For every argument the solver can pass (non-negative reals), the omega function returns w with w + log w equal to the argument up to a few units of relative rounding error, and rejects negative arguments.",
 ["inputs"],"all non-negative doubles","The function is only evaluated indirectly at the points four problems visit.",
 ["src/wright_omega.c"],[("series start + two corrections","src/wright_omega.c: wrightOmega")],observe=["return value"])
prop("C26","Solvable problems are solved to the requested accuracy",
 "For every well-posed conic problem the floating-point iteration converges within the default iteration limit to a point meeting the default tolerances, or to a certificate of infeasibility.",
 ["inputs"],"all well-posed problems of any size","Tests cover ~40 problems.",
 [EC],[("whole interior-point method",EC+": ECOS_solve")],observe=["exit code"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
