"""Job lists: which harness, bounds and engine decide which property (quick and thorough tiers)."""
DIST = "The implementation's functions are taken from /repo's current sources on every run; the assertions are decided by an SMT/SAT solver for every value of the symbolic inputs within the listed bounds; counterexamples count only if the native build of the real code reproduces them. "
RSX = DIST + "Engine rsx: LLVM IR of the sources executed symbolically path by path, doubles as exact reals (z3 non-linear real arithmetic over a polynomial normal form; rounding is outside the model), integers, pointers, sizes and sparsity concrete per job. "
CB = DIST + "Engine CBMC: bit-precise symbolic execution (IEEE doubles, machine integers, memory model) with loop bounds proved sufficient by unwinding assertions. "
REG = {}
def prop(pid, explanation, assumptions=(), level="other"):
    def deco(f): REG[pid] = (f, {"explanation": explanation, "assumptions": list(assumptions), "level": level}); return f
    return deco
def rsx(id, harness, defs, groups=("solver",), timeout=100, **kw):
    opts = kw.pop("opts", {})
    return dict(id=id, engine="rsx", harness=harness, defs=list(defs), groups=list(groups), timeout=timeout, opts=dict(opts), **kw)
def cbm(id, harness, defs, groups=("solver",), timeout=200, unwind=6, threads=4, **kw):
    return dict(id=id, engine="cbmc", harness=harness, defs=list(defs), groups=list(groups), timeout=timeout, unwind=unwind, threads=threads, cores=threads, per_prop=kw.pop("per_prop", True), **kw)
def jobs(pid, tier):
    f, meta = REG[pid]; js = f(tier)
    ids = [j["id"] for j in js]; assert len(ids) == len(set(ids)), ids
    return js, meta

SIMA = ["numeric kernels (factorisation, solves, residuals, statistics, line searches, scalings) return arbitrary values; the residual and infeasibility measures are non-negative or NaN",
        "reduced tolerances are not tighter than the full ones", "one primal variable, one LP row, 0/1 exponential cone, 0/1 equality row; iterates carry distinguishing labels"]
def sim(P, cfgs, **kw):
    return [cbm("sim_e%d_p%d_s%d%s" % (e, p, s, "_twice" if tw else ""), "sim.c", ["PROP=%d" % P, "NEXC=%d" % e, "PEQ=%d" % p, "SMAX=%d" % s] + (["TWICE=1"] if tw else []), unwind=max(5, s + 4) + 6*e, san=False, cbmc=["--sat-solver", "cadical"] if P == 1 and s > 1 else [], **kw) for e, p, s, tw in cfgs]
@prop("C01", CB + "ECOS_solve, init, checkExitConditions, compareStatistics, save/restoreBestIterate and ctrlc.c are the real code; the numeric kernels are replaced by stand-ins returning arbitrary values, so the assertions range over every sequence of iterate measures, factorisation failures, cone exits and signals.", SIMA)
def c01(t): return sim(1, [(0,1,1,0),(1,0,1,0),(0,1,2,0)] if t == "quick" else [(0,1,1,0),(0,0,1,0),(1,0,2,0),(0,1,2,0),(1,1,2,0),(0,0,2,0),(0,1,3,0)], timeout=200 if t == "quick" else 700)
@prop("C03", CB + "As C01 with unscaling real; iterates carry labels that survive unscaling, so the returned point and every reported measure can be traced to the iterate it came from.", SIMA + ["tau and equilibration factors are powers of two so that unscaling is exact"])
def c03(t): return sim(3, [(0,1,1,0),(1,1,1,0),(0,0,2,0)] if t == "quick" else [(0,1,1,0),(1,1,1,0),(0,0,2,0),(1,0,2,0),(0,1,3,0)], timeout=200 if t == "quick" else 700)
@prop("C04", CB + "As C03; the signal disposition is modelled by a stand-in sigaction that records what is in force.", SIMA)
def c04(t): return sim(4, [(0,1,1,0),(1,1,1,0),(0,0,1,0)] if t == "quick" else [(0,1,1,0),(1,1,1,0),(0,0,1,0),(0,1,2,0),(1,1,2,0)], timeout=200 if t == "quick" else 700)
@prop("C05", CB + "As C01 with counters on factorisations, solves and iterates and a signal delivered at an arbitrary moment.", SIMA)
def c05(t): return [rsx("trials", "c05.c", ["PART=0","BKI=3" if t == "quick" else "BKI=6","NEXC=1","LP=1"]), rsx("corrections", "c05.c", ["PART=1","BKI=1" if t == "quick" else "BKI=2","NV=1","LP=1"], groups=("solver","ldl","amd"))] + sim(5, [(0,1,1,0),(1,0,1,0),(0,1,1,1)] if t == "quick" else [(0,1,1,0),(1,0,1,0),(0,1,1,1),(0,1,2,0),(1,0,2,0),(1,1,1,1)], timeout=200 if t == "quick" else 700)

def cones(t):
    q = [("lp2", "LP=2", "NSOC=0", "SOCS=0"), ("q2", "LP=0", "NSOC=1", "SOCS=2"), ("q3", "LP=0", "NSOC=1", "SOCS=3"), ("l1q2q2", "LP=1", "NSOC=2", "SOCS=2,2"), ("l1q3q2", "LP=1", "NSOC=2", "SOCS=3,2"), ("q1q2", "LP=0", "NSOC=2", "SOCS=1,2")]
    return q
@prop("C10", RSX + "The real conicProduct and conicDivision against the documented Jordan product.", ["divisors are not zero (strictly interior u)"])
def c10(t):
    cs = cones(t) + ([("l2q4q3", "LP=2", "NSOC=2", "SOCS=4,3"), ("q5", "LP=0", "NSOC=1", "SOCS=5"), ("l1q2q1q3", "LP=1", "NSOC=3", "SOCS=2,1,3")] if t == "thorough" else [])
    return [rsx(c[0], "c10.c", c[1:]) for c in cs]

@prop("C06", RSX + "The real lineSearch of cone/ecos with every direction, tau/kappa and step symbolic (scaled point concrete rational or symbolic where listed): the accepted step keeps every cone inequality, the step limits and the sign of tau and kappa.", ["sqrt is exact", "scaled points with the listed structure"])
def c06(t):
    q = [rsx("lp2", "c06.c", ["LP=2","NSOC=0","SOCS=0","DSSYM=1"]), rsx("q2", "c06.c", ["LP=0","NSOC=1","SOCS=2","DSSYM=1"]),
         rsx("q3_ds", "c06.c", ["LP=0","NSOC=1","SOCS=3","DSMASK=7","DZMASK=0","DT0=2"]), rsx("q3_dz", "c06.c", ["LP=0","NSOC=1","SOCS=3","DSMASK=0","DZMASK=7","DT0=2"]),
         rsx("bnd_q2q2", "c06.c", ["LP=0","NSOC=2","SOCS=2,2","DSMASK=12","DZMASK=12","DT0=2","BND=1"])]
    if t == "thorough": q += [rsx("l1q2q2", "c06.c", ["LP=1","NSOC=2","SOCS=2,2","DSMASK=7","DZMASK=24","DT0=2"], timeout=400), rsx("l1q1q2", "c06.c", ["LP=1","NSOC=2","SOCS=1,2","DSSYM=1","DT0=2"], timeout=500), rsx("q2_lsym", "c06.c", ["LP=0","NSOC=1","SOCS=2","DSSYM=1","LSYM=1"], timeout=500)]
    for j in q: j["timeout"] = max(j["timeout"], 200)
    return q
@prop("C08", RSX + "The real ECOS_setup, init and bring2cone; the two linear solves return arbitrary vectors, their right-hand sides are checked.", ["the factorisation succeeds; linear solves return arbitrary finite vectors"])
def c08(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, opts={"sqrt_float": True}, timeout=200)
    q = [rsx("lp2","c08.c",["LP=2","NSOC=0","SOCS=0"],**o), rsx("l1q2p1","c08.c",["LP=1","NSOC=1","SOCS=2","PEQ=1"],**o), rsx("q3","c08.c",["LP=0","NSOC=1","SOCS=3"],**o), rsx("e1","c08.c",["LP=0","NSOC=0","SOCS=0","NEXC=1"],**o), rsx("l1q1q2","c08.c",["LP=1","NSOC=2","SOCS=1,2"],**o), rsx("l1q3","c08.c",["LP=1","NSOC=1","SOCS=3"],**o), rsx("q2q3","c08.c",["LP=0","NSOC=2","SOCS=2,3"],**o)]
    if t == "thorough": q += [rsx("l1q2q3","c08.c",["LP=1","NSOC=2","SOCS=2,3"],groups=S,opts={"sqrt_float":True},timeout=600)]
    return q
@prop("C09", RSX + "The real updateScalings, scale, unscale, scale2add against the Nesterov-Todd identities.", ["interior points; sqrt is exact"])
def c09(t):
    q = [rsx("m0_l1q1","c09.c",["MODE=0","CHK=1","LP=1","NSOC=1","SOCS=1"]), rsx("m1_q2_a","c09.c",["MODE=1","CHK=3","LP=0","NSOC=1","SOCS=2"]), rsx("m1_q2_b","c09.c",["MODE=1","CHK=4","LP=0","NSOC=1","SOCS=2"]),
         rsx("m3_l1q3","c09.c",["MODE=3","CHK=7","LP=1","NSOC=1","SOCS=3"]), rsx("m3_out","c09.c",["MODE=3","CHK=8","LP=1","NSOC=2","SOCS=3,2"]), rsx("m3_l1q3q2","c09.c",["MODE=3","CHK=7","LP=1","NSOC=2","SOCS=3,2"]), rsx("m3_q4","c09.c",["MODE=3","CHK=7","LP=0","NSOC=1","SOCS=4"]),
         rsx("m3_q2q6","c09.c",["MODE=3","CHK=7","LP=0","NSOC=2","SOCS=2,6"]), rsx("m3_q2q5","c09.c",["MODE=3","CHK=7","LP=0","NSOC=2","SOCS=2,5"]), rsx("m3_q6q5o","c09.c",["MODE=3","CHK=8","LP=0","NSOC=2","SOCS=6,5"]), rsx("m3_q2q6o","c09.c",["MODE=3","CHK=8","LP=1","NSOC=2","SOCS=2,6"])]
    return q
@prop("C11", RSX + "The real evalExpGradient, evalExpHessian, evalBarrierValue against exact derivatives of the barrier with log as uninterpreted function.", ["log and the omega function are uninterpreted functions with the stated identities"])
def c11(t):
    return [rsx("grad","c11.c",["PART=0","NEXC=2","LP=1"]), rsx("hess","c11.c",["PART=1","NEXC=2","LP=1"]), rsx("barrier","c11.c",["PART=2","NEXC=2","LP=1"]), rsx("scale","c11.c",["PART=3","NEXC=2","LP=1"]), rsx("q2","c11.c",["PART=3","NSOC=1","SOCS=2","NEXC=1"])]
@prop("C07", RSX + "The real evalExpPrimalFeas/evalExpDualFeas against the documented cones (real coordinates, exact zeros, NaN) and the real expConeLineSearch, evalBarrierValue and evalSymmetricBarrierValue with symbolic iterate, direction, step, backtracking factor and centrality bound. log is an uninterpreted function (its arguments' signs are split), counterexamples are made concrete with the real logarithm.", ["omega function: any value consistent with omega(x)>1 for x>1", "in the jobs without ANYSTART the iterate and the step handed over keep the linear and second-order cones, as the symmetric line search ensures", "gamma is 0.875 (exactly representable)"])
def c07(t):
    o = dict(opts={"div0": "fork"}, timeout=200)
    q = [rsx("prim1", "c07.c", ["MEMB=0","NEXC=1"], **o), rsx("dual1", "c07.c", ["MEMB=1","NEXC=1"], **o), rsx("prim2", "c07.c", ["MEMB=0","NEXC=2"], **o), rsx("dual2", "c07.c", ["MEMB=1","NEXC=2"], **o),
         rsx("ls_l1", "c07.c", ["BKI=1","NEXC=1","LP=1"], **o), rsx("ls_q2", "c07.c", ["BKI=1","NEXC=1","NSOC=1","SOCS=2","AFF=0"], **o), rsx("ls_e2", "c07.c", ["BKI=1","NEXC=2","AFF=1"], **o), rsx("ls_bk2", "c07.c", ["BKI=2","NEXC=1","AFF=1","LP=1","DCON=1"], **o),
         rsx("any_l1", "c07.c", ["BKI=1","NEXC=1","LP=1","AFF=0","ANYSTART=1"], **o), rsx("any_q2", "c07.c", ["BKI=1","NEXC=1","NSOC=1","SOCS=2","AFF=0","ANYSTART=1"], **o), rsx("any_tk", "c07.c", ["BKI=1","NEXC=1","AFF=1","ANYSTART=1"], **o)]
    if t == "thorough": q += [rsx("ls_bk2f", "c07.c", ["BKI=2","NEXC=1","AFF=1"], **o), rsx("ls_e2c", "c07.c", ["BKI=1","NEXC=2","AFF=0","DCON=1"], **o), rsx("ls_bk3", "c07.c", ["BKI=3","NEXC=1","AFF=0","DCON=1"], opts={"div0": "fork"}, timeout=700)]
    return q
@prop("C02", RSX + "The real computeResiduals and updateStatistics (sparse kernels included) against the documented definitions.", ["finite data and iterates with tau, kappa > 0", "tolerances and data norms positive; in the jobs with BIGN the data norms are at least one as init sets them", "CITER jobs: numbers for the iterate and the matrices, symbolic data vectors, tau, kappa"])
def c02(t):
    q = [rsx("n1l1p1", "c02.c", ["NV=1","LP=1","PEQ=1","CHK=15"]), rsx("n2l1p1", "c02.c", ["NV=2","LP=1","PEQ=1","BIGN=1","CHK=15"]), rsx("n1l2", "c02.c", ["NV=1","LP=2","BIGN=1","CHK=7","SYM=0"]),
         rsx("n2l1q2p1", "c02.c", ["NV=2","LP=1","NSOC=1","SOCS=2","PEQ=1","BIGN=1","CHK=15","SYM=0","CITER=1"]), rsx("n2q3", "c02.c", ["NV=2","LP=0","NSOC=1","SOCS=3","BIGN=1","CHK=15","SYM=0","CITER=1"]), rsx("n1e1p2", "c02.c", ["NV=1","NEXC=1","PEQ=2","BIGN=1","CHK=15","SYM=0","CITER=1"])]
    if t == "thorough": q += [rsx("n2l1p1s", "c02.c", ["NV=2","LP=1","PEQ=1","BIGN=1","CHK=15","SYM=0"]), rsx("n2l2q3p2", "c02.c", ["NV=2","LP=2","NSOC=1","SOCS=3","PEQ=2","BIGN=1","CHK=15","SYM=0","CITER=1"], timeout=300), rsx("n2l2", "c02.c", ["NV=2","LP=2","BIGN=1","CHK=3","SYM=0"], timeout=600)]
    for j in q: j["timeout"] = max(j["timeout"], 200)
    return q

@prop("C18", RSX + "The real kernels of spla.c and splamm.c; every pattern within the bounds (including empty matrices, rows and columns, unsorted rows and duplicates), all values, all mode flags.", ["exact arithmetic"])
def c18(t):
    big = t == "thorough"
    q = [rsx("mv23", "c18.c", ["PART=0","RM=2","CN=2","CE=2"]), rsx("mv33", "c18.c", ["PART=0","RM=3","CN=3","CE=1"]), rsx("mtv23", "c18.c", ["PART=1","RM=2","CN=2","CE=2"]), rsx("mtv33", "c18.c", ["PART=1","RM=3","CN=3","CE=1"]), rsx("mtv_r3", "c18.c", ["PART=1","RM=3","CN=2","CE=2"]),
         rsx("tr", "c18.c", ["PART=2","RM=2","CN=3","CE=2"]), rsx("tr33", "c18.c", ["PART=2","RM=3","CN=3","CE=1"]), rsx("copy", "c18.c", ["PART=3","RM=2","CN=3","CE=1"]), rsx("perm3", "c18.c", ["PART=4","CN=3","LOWER=1"]), rsx("perm2", "c18.c", ["PART=4","CN=2","LOWER=1"])]
    q += [rsx("vec%d" % i, "c18.c", ["PART=5","PART2=%d" % i,"N=%d" % (4 if big and i == 3 else 3)]) for i in range(5)]
    if big: q += [rsx("mv33b", "c18.c", ["PART=0","RM=3","CN=3","CE=2"], opts={"max_paths": 60000}, timeout=600), rsx("mtv33b", "c18.c", ["PART=1","RM=3","CN=3","CE=2"], opts={"max_paths": 60000}, timeout=600), rsx("tr33b", "c18.c", ["PART=2","RM=3","CN=3","CE=2"], opts={"max_paths": 60000}, timeout=600), rsx("perm4", "c18.c", ["PART=4","CN=4","LOWER=0"], opts={"max_paths": 200000}, timeout=600)]
    for j in q: j["defs"] += [d for d in ("LOWER=0", "PART2=0") if not any(x.startswith(d.split("=")[0] + "=") for x in j["defs"])]
    return q

@prop("C14", RSX + "The real LDL_symbolic2, LDL_numeric2, LDL_lsolve2, LDL_dsolve, LDL_ltsolve on every upper triangular pattern with full diagonal within the bounds, all values, pivot signs and regularisation parameters.", ["exact arithmetic", "0 < eps < delta"])
def c14(t):
    L = ("ldl",)
    q = [rsx("n3", "c14.c", ["NN=3","PART=0"], groups=L, timeout=200), rsx("n3ord", "c14.c", ["NN=3","PART=0","ORD=1","ALLPOS=5"], groups=L, timeout=200), rsx("n4a", "c14.c", ["NN=4","PART=0","ALLPOS=3"], groups=L, timeout=250), rsx("s3", "c14.c", ["NN=3","PART=1"], groups=L), rsx("s4", "c14.c", ["NN=4","PART=1"], groups=L),
         rsx("n5arrow", "c14.c", ["NN=5","PART=0","ALLPOS=11","PATT=960"], groups=L, timeout=250), rsx("n5band", "c14.c", ["NN=5","PART=0","ALLPOS=21","PATT=0x125"], groups=L, timeout=250)]
    if t == "thorough": q += [rsx("n4b%d" % m, "c14.c", ["NN=4","PART=0","ALLPOS=%d" % m], groups=L, timeout=600) for m in (0, 5, 10, 12, 15)] + [rsx("n5f%d" % p, "c14.c", ["NN=5","PART=0","ALLPOS=%d" % sg,"PATT=%d" % p], groups=L, timeout=600) for p, sg in ((991, 11), (1023, 19), (682, 28), (341, 7))] + [rsx("s5", "c14.c", ["NN=5","PART=1","PATT=1023"], groups=L, timeout=400)]
    return q

@prop("C12", RSX + "The real ECOS_setup (createKKT_U, transpositions, AMD ordering, permutation), kkt_update, kkt_init and scale2add on every sparsity pattern of A and G within the bounds, symbolic data and scalings; every entry, index, sign and recorded position of the resulting matrix is compared with the documented one.", ["equilibration factors are one here (C16 covers equilibration)", "exact arithmetic", "scaling block up to the static regularisation 7e-8"])
def c12(t):
    S = dict(groups=("solver","ldl","amd"), timeout=200)
    q = [rsx("n1p1l1q2", "c12.c", ["NV=1","PEQ=1","LP=1","NSOC=1","SOCS=2"], **S), rsx("n2q3", "c12.c", ["NV=2","NSOC=1","SOCS=3"], **S), rsx("n2p1l1q2", "c12.c", ["NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2"], **S), rsx("n1p1l1q2e1", "c12.c", ["NV=1","PEQ=1","LP=1","NSOC=1","SOCS=2","NEXC=1"], **S),
         rsx("n1q2q3", "c12.c", ["NV=1","NSOC=2","SOCS=2,3"], **S), rsx("n1p2q1", "c12.c", ["NV=1","PEQ=2","NSOC=1","SOCS=1"], **S), rsx("n3p1l1q3", "c12.c", ["NV=3","PEQ=1","LP=1","NSOC=1","SOCS=3","GMASK=0xA6D","AMASK=5"], **S), rsx("n2l1e2", "c12.c", ["NV=2","PEQ=1","LP=1","NEXC=2","GMASK=0x1B5B"], **S), rsx("n2p2l2q3q2e1", "c12.c", ["NV=2","PEQ=2","LP=2","NSOC=2","SOCS=3,2","NEXC=1","GMASK=0xD1B5B","AMASK=11"], **S)]
    if t == "thorough": q += [rsx("n2p1l1q3", "c12.c", ["NV=2","PEQ=1","LP=1","NSOC=1","SOCS=3"], groups=S["groups"], timeout=600, opts={"max_paths": 80000}), rsx("n2p2l2", "c12.c", ["NV=2","PEQ=2","LP=2"], groups=S["groups"], timeout=600), rsx("n3p1l3", "c12.c", ["NV=3","PEQ=1","LP=3"], groups=S["groups"], timeout=700, opts={"max_paths": 80000}), rsx("n2p1e1", "c12.c", ["NV=2","PEQ=1","NEXC=1"], groups=S["groups"], timeout=600)]
    return q

@prop("C16", RSX + "The real ECOS_setup with equilibration, ECOS_cleanup, and the scaling and unscaling done by ECOS_solve. In the 'any' jobs every row and column norm is an arbitrary positive function of the entries, in the 'real' jobs the norms are the real ones as well.", ["exact arithmetic, sqrt exact", "'any' jobs: max_rows and max_cols replaced by arbitrary norms of at least one per entry; 'solve' jobs: the iteration itself is replaced by an arbitrary final iterate with tau > 0"])
def c16(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, timeout=200)
    q = [rsx("any_p1l1q2","c16.c",["PART=0","NV=1","PEQ=1","LP=1","NSOC=1","SOCS=2"],**o), rsx("any_q2e1","c16.c",["PART=0","NV=1","NSOC=1","SOCS=2","NEXC=1"],**o), rsx("any_n2e1","c16.c",["PART=0","NV=2","LP=1","NEXC=1","GMASK=0xB6"],**o), rsx("any_n2p2","c16.c",["PART=0","NV=2","PEQ=2","NSOC=2","SOCS=2,2","NEXC=1","GMASK=0x1DB6F","AMASK=9"],**o), rsx("any_n2l2","c16.c",["PART=0","NV=2","LP=2","PEQ=1"],**o),
         rsx("real_l1","c16.c",["PART=2","NV=1","LP=1"],**o), rsx("real_p1l1","c16.c",["PART=2","NV=1","LP=1","PEQ=1"],**o), rsx("real_q2","c16.c",["PART=2","NV=1","NSOC=1","SOCS=2"],**o), rsx("real_e1","c16.c",["PART=2","NV=1","NEXC=1","NONNEG=1"],**o), rsx("real_n2","c16.c",["PART=2","NV=2","LP=1","NONNEG=1"],**o),
         rsx("solve_p1l1q2","c16.c",["PART=3","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2","GMASK=0x2D","AMASK=3"],**o), rsx("solve_l1q3e1","c16.c",["PART=3","NV=2","LP=1","NEXC=1","NSOC=1","SOCS=3","GMASK=0x1B66D"],**o), rsx("solve_p2q2q2e1","c16.c",["PART=3","NV=2","PEQ=2","NSOC=2","SOCS=2,2","NEXC=1","GMASK=0x1DB6F","AMASK=9"],**o)]
    if t == "thorough": q += [rsx("any_n2p1l1q2","c16.c",["PART=0","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2"],groups=S,timeout=500), rsx("any_n2q3","c16.c",["PART=0","NV=2","NSOC=1","SOCS=3"],groups=S,timeout=400), rsx("real_q3","c16.c",["PART=2","NV=1","NSOC=1","SOCS=3","NONNEG=1"],groups=S,timeout=600), rsx("real_n2p1","c16.c",["PART=2","NV=2","PEQ=1","LP=1","NONNEG=1","GMASK=3"],groups=S,timeout=600)]
    return q

@prop("C17", RSX + "The real ECOS_setup, ECOS_updateData, ecos_updateDataEntry_h/_c, ECOS_cleanup (and the scaling done by ECOS_solve) run on symbolic data; the whole workspace is compared with that of a fresh ECOS_setup on copies of the same numbers.", ["exact arithmetic, sqrt exact", "max_rows and max_cols replaced by arbitrary norms of at least one per entry (the same function in both workspaces)", "either all arrays passed to ECOS_updateData are new or all are the ones in use", "in jobs with a solve the iteration itself is replaced by a fixed final iterate"])
def c17(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, timeout=200); f = ["NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2","GMASK=0x36","AMASK=2"]
    q = [rsx("new_l1q2","c17.c",["SEQ=0","NV=1","LP=1","NSOC=1","SOCS=2","GMASK=7"],**o), rsx("new_e1p1","c17.c",["SEQ=0","NV=1","PEQ=1","NEXC=1","AMASK=1","GMASK=5"],**o), rsx("new_n2l2","c17.c",["SEQ=0","NV=2","LP=2"],**o), rsx("new_n1p1l1","c17.c",["SEQ=0","NV=1","PEQ=1","LP=1"],**o), rsx("new_full","c17.c",["SEQ=0","SOLVE=1"]+f,**o),
         rsx("adj1","c17.c",["SEQ=0","ADJ=1","NV=1","PEQ=1","LP=1","GMASK=1","AMASK=1"],**o), rsx("adj2","c17.c",["SEQ=0","ADJ=2","SOLVE=1","NV=2","PEQ=1","LP=1","GMASK=3","AMASK=2"],**o), rsx("adj0","c17.c",["SEQ=0","ADJ=1","NV=1","LP=2","GMASK=2"],**o),
         rsx("place","c17.c",["SEQ=1"]+f,**o), rsx("place_p0","c17.c",["SEQ=1","NV=2","LP=1","NSOC=1","SOCS=2","GMASK=0x36"],**o), rsx("seq","c17.c",["SEQ=3"]+f,**o), rsx("seq_p0","c17.c",["SEQ=3","NV=2","LP=1","NSOC=1","SOCS=2","GMASK=0x36"],**o), rsx("entry","c17.c",["SEQ=2","SOLVE=1","NV=2","LP=2","GMASK=11"],**o), rsx("entry_p1","c17.c",["SEQ=2","NV=1","PEQ=1","NSOC=1","SOCS=3","GMASK=5","AMASK=1"],**o)]
    if t == "thorough": q += [rsx("new_p2q2","c17.c",["SEQ=0","NV=2","PEQ=2","NSOC=1","SOCS=2","GMASK=11"],groups=S,timeout=600), rsx("new_n1q2e1","c17.c",["SEQ=0","NV=1","NSOC=1","SOCS=2","NEXC=1"],groups=S,timeout=600), rsx("entry_full","c17.c",["SEQ=2","SOLVE=1"]+f,groups=S,timeout=600), rsx("seq_e","c17.c",["SEQ=3","NV=2","PEQ=1","NEXC=1","LP=1","GMASK=0x9D","AMASK=3"],groups=S,timeout=600)]
    return q

@prop("C15", RSX + "The real kkt_solve, unstretch, scale2add and sparse kernels behind a real ECOS_setup. 'res' jobs: the factor solves return arbitrary vectors and the norms ask for refinement, all data symbolic; 'dec' jobs: real norms, the decision to keep, undo or stop for arbitrary solutions; 'end' jobs: real factorisation and solves, the direction solves the (statically regularised) system identically.", ["exact arithmetic; up to the static regularisation 7e-8 times the component", "equilibration factors are one", "res jobs: at initialisation the two auxiliary components of a second-order cone are zero, as the decoupled rows make them", "end jobs: no pivot needed dynamic regularisation; no refinement"])
def c15(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, timeout=200)
    q = [rsx("res_n2p1l1q3","c15.c",["PART=0","ISINIT=0","NIT=2","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=3"],**o), rsx("res_i_q2q3","c15.c",["PART=0","ISINIT=1","NIT=2","NV=1","PEQ=1","LP=1","NSOC=2","SOCS=2,3"],**o), rsx("res_q3q2e1","c15.c",["PART=0","ISINIT=0","NIT=3","NV=1","LP=1","NSOC=2","SOCS=3,2","NEXC=1"],**o), rsx("res_i_e1","c15.c",["PART=0","ISINIT=1","NIT=1","NV=2","PEQ=2","LP=1","NEXC=2"],**o), rsx("res_q1q4","c15.c",["PART=0","ISINIT=0","NIT=2","NV=3","PEQ=2","LP=2","NSOC=2","SOCS=1,4"],**o),
         rsx("dec_n1l1","c15.c",["PART=1","ISINIT=0","NIT=1","NV=1","LP=1"],**o), rsx("dec_i_n1l1","c15.c",["PART=1","ISINIT=1","NIT=1","NV=1","LP=1"],**o),
         rsx("end_n2p1l2","c15.c",["PART=2","ISINIT=0","NV=2","LP=2","PEQ=1"],**o), rsx("end_i_q2","c15.c",["PART=2","ISINIT=1","NV=1","PEQ=1","NSOC=1","SOCS=2"],**o), rsx("end_q2","c15.c",["PART=2","ISINIT=0","NV=1","NSOC=1","SOCS=2"],**o), rsx("end_e1","c15.c",["PART=2","ISINIT=0","NV=1","NEXC=1"],**o)]
    q += [rsx("dec_n1p1l1","c15.c",["PART=1","ISINIT=0","NIT=1","NV=1","LP=1","PEQ=1"],groups=S,timeout=700)]
    q += [rsx("dec_"+n,"c15.c",["PART=1","ISINIT=%d"%i,"NIT=1","XMASK=%d"%x]+d,groups=S,timeout=700) for n,i,x,d in [("p2",0,0b110,["NV=1","PEQ=2","LP=1"]),("e1",0,0b1001,["NV=1","NEXC=1"])]]
    if t == "thorough": q += [rsx("dec_i_n2e1","c15.c",["PART=1","ISINIT=1","NIT=1","XMASK=18","NV=2","NEXC=1"],groups=S,timeout=700), rsx("dec2","c15.c",["PART=1","ISINIT=0","NIT=2","NV=1","LP=1"],groups=S,timeout=700,opts={"max_paths":80000}), rsx("end_n2p1l1q2","c15.c",["PART=2","ISINIT=0","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2"],groups=S,timeout=500), rsx("end_l1e1","c15.c",["PART=2","ISINIT=0","NV=2","PEQ=1","LP=1","NEXC=1"],groups=S,timeout=500)]
    return q

@prop("C23", RSX + "One iteration of the real ECOS_solve (RHS_affine, RHS_combined, conicProduct, conicDivision, scale, scaleToAddExpcone, step and update code) with exact linear solves; iterate, residuals, mu, tau, kappa and step lengths are symbolic, the resulting change of the iterate is put into the documented linearised system.", ["exact arithmetic; exact linear solves of the unregularised KKT system (C15 covers the real solves)", "G, A and the scaling point are numbers (all other data symbolic; in CLAM jobs the scaled point lambda and c, b, h are numbers as well)", "line searches return any step within their documented range (C06, C07)", "right-hand side (-c,b,h) prepared by init (C08)"])
def c23(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, timeout=250)
    q = [rsx("l1p1s","c23.c",["PART=15","NV=2","PEQ=1","LP=1","SYMD=1"],**o), rsx("l2p1","c23.c",["PART=15","NV=2","PEQ=1","LP=2"],**o), rsx("q2p1","c23.c",["PART=15","NV=2","PEQ=1","NSOC=1","SOCS=2"],**o), rsx("q3","c23.c",["PART=15","NV=2","NSOC=1","SOCS=3"],**o), rsx("l1e1","c23.c",["PART=15","NV=1","NEXC=1","LP=1"],**o),
         rsx("l1e2p2","c23.c",["PART=15","NV=2","PEQ=2","LP=1","NEXC=2","CLAM=1"],**o), rsx("l1q4p1","c23.c",["PART=15","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=4","CLAM=1"],**o), rsx("l1q3q2","c23.c",["PART=15","NV=1","LP=1","NSOC=2","SOCS=3,2","CLAM=1"],opts={"feas_ms":150},**o), rsx("l1q2e1p1","c23.c",["PART=15","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2","NEXC=1","CLAM=1"],**o)]
    if t == "thorough": q += [rsx("l1q2q2e1p1","c23.c",["PART=15","NV=2","PEQ=1","LP=1","NSOC=2","SOCS=2,2","NEXC=1","CLAM=1"],groups=S,timeout=800,opts={"feas_ms":150}), rsx("e1s","c23.c",["PART=15","NV=1","NEXC=1","SYMD=1"],groups=S,timeout=600), rsx("l2q2s","c23.c",["PART=15","NV=1","LP=1","NSOC=1","SOCS=2","SYMD=1"],groups=S,timeout=600)]
    return q

BB = "The real ECOS_BB_setup, ECOS_BB_solve (branching, node selection, bounds, strategies), ECOS_BB_cleanup and ECOS_setup on top of an arbitrary honest relaxation oracle in place of ECOS_solve: "
BBA = ["every relaxation is answered honestly: optimal with a valid lower bound, monotone in the box, or infeasible, or unbounded (root only), possibly with reduced accuracy", "iteration-limit and numerical-problem answers are outside", "fractional parts symbolic in one-variable jobs, from a list of four elsewhere; at most FMAX fractional boxes", "exact arithmetic"]
def bb(name, nb, ni, bcol, icol, tcol, strat, *d, t=300, eq=0, **o):
    o.setdefault("div0", "fork"); o.setdefault("max_paths", 60000)
    if eq: o["sqrt_float"] = True
    d = list(d) + (["EQ"] if eq else []) + (["RNDSTRAT"] if strat == 4 else []) + ([] if any(x.startswith("ETA") for x in d) else ["ETA=0"]) + ([] if any(x.startswith("FRAC") or x == "FRAC" for x in d) else ["FRAC=1"])
    return rsx(name, "c19.c", ["NB=%d" % nb, "NI=%d" % ni, "BCOL=" + bcol, "ICOL=" + icol, "TCOL=%d" % tcol, "STRAT=%d" % strat] + d, groups=("solver","ldl","amd","bb"), timeout=t, opts=o)

@prop("C19", RSX + BB + "for every assignment of objectives to the integer grid and every oracle behaviour (symbolic objectives, bounds and fractional parts, forked feasibility and answer kinds) the verdict is compared with the best of the grid.", BBA)
def c19(t):
    q = [bb("b2_s0", 2, 0, "0,1,", "", 2, 0, "SEL=1", "FMAX=2", "NOREL")] + [bb("b1_s%d" % k, 1, 0, "1,", "", 0, k, "FRAC=0", "ETA=%d" % (k % 2)) for k in range(5)]
    q += [bb("i1_s%d" % k, 0, 1, "", "0,", 1, k, "SEL=%d" % (k % 3), "FMAX=2", "FRAC=%d" % (1 + k % 4), *(["ILO=-2", "IHI=0"] if k % 2 else []), *(["NOREL"] if k != 2 else [])) for k in (0, 2, 3, 4)]
    q += [bb("b2_s%d" % k, 2, 0, "0,1,", "", 2, k, "SEL=%d" % ((k + 1) % 3), "FMAX=1", "NOREL", "FRAC=%d" % (1 + k % 4)) for k in (1, 2, 3)]
    q += [bb("m_s%d" % k, 1, 1, "2,", "0,", 1, k, "SEL=%d" % (k % 3), "FMAX=1", "NOREL", "IHI=1", "FRAC=%d" % (2 + k % 3)) for k in (2, 3, 4)]
    q += [bb("m_s%d_f%d" % (k, fr), 1, 1, "2,", "0,", 1, k, "SEL=%d" % (fr % 3), "FMAX=1", "NOREL", "IHI=1", "FRAC=%d" % fr) for k, fr in ((1, 1), (1, 2), (3, 3))]
    q += [bb("acc_s0", 1, 0, "0,", "", 1, 0, "STAT=1", "NOREL", "REP=2"), bb("acc_s3", 1, 0, "0,", "", 1, 3, "STAT=1", "NOREL")]
    if t == "thorough": q += [bb("tb2_s%d" % k, 2, 0, "1,0,", "", 2, k, "SEL=%d" % s, "FMAX=3", "NOREL", "FRAC=%d" % (1 + s), t=800) for k in range(5) for s in (0, 1, 2)] + [bb("ti1_s%d" % k, 0, 1, "", "0,", 1, k, "IHI=3", "FMAX=3", "NOREL", t=800) for k in range(5)]
    return q

@prop("C20", RSX + BB + "every relaxation handed to the conic solver is compared, entry by entry, with the user's problem plus the node's bounds, for index lists in any order; single-entry updates, the caller's arrays and the equilibrated storage are covered.", BBA)
def c20(t):
    q = [bb("eq_b3i1", 2, 1, "3,1,", "0,", 2, 0, "SEL=0", "FMAX=1", "CHKBOX", "IHI=1", "NOREL", "ONEPT=1", eq=1), bb("eq_i1b1", 1, 1, "0,", "2,", 1, 3, "SEL=2", "FMAX=1", "CHKBOX", "NOREL", "ILO=-1", "IHI=0", "ONEPT=1", eq=1), bb("eq_i2", 0, 2, "", "2,0,", 1, 2, "SEL=1", "FMAX=1", "CHKBOX", "NOREL", "IHI=1", eq=1),
         bb("i1_neg", 0, 1, "", "1,", 0, 0, "SEL=0", "FMAX=2", "CHKBOX", "NOREL", "ILO=-3", "IHI=-1", "FRAC=2", "SYMD"), bb("b1_null", 1, 0, "1,", "", 0, 3, "NULLSTG", "UPD", "CHKBOX", eq=1), bb("upd_b1i1", 1, 1, "1,", "0,", 2, 0, "SEL=0", "FMAX=0", "IHI=1", "UPD", "CHKBOX", "UROW=3", eq=1), bb("upd_i2", 0, 2, "", "0,2,", 1, 0, "SEL=0", "FMAX=0", "IHI=1", "UPD", "CHKBOX", "UROW=3", "SYMD"),
         bb("rep_b1", 1, 0, "0,", "", 1, 1, "REP=2", "CHKBOX", "UPD", "SYMD", "NOREL", "SEL=1")]
    if t == "thorough": q += [bb("tb3_s%d" % k, 3, 0, "3,0,2,", "", 1, k, "SEL=%d" % (k % 3), "FMAX=1", "CHKBOX", "NOREL", t=800) for k in (0, 2)] + [bb("ti2_s%d" % k, 0, 2, "", "1,0,", 2, k, "SEL=%d" % (k % 3), "FMAX=1", "CHKBOX", "NOREL", t=800) for k in range(5)]
    return q

@prop("C21", RSX + BB + "node limits from one up, inaccurate and unbounded answers, repeated solves; status, returned point, bounds and number of nodes are compared with what the oracle answered, with every memory access checked against its block.", BBA)
def c21(t):
    q = [bb("max_b2_s0", 2, 0, "0,1,", "", 2, 0, "SEL=0", "FMAX=1", "MAXN=3", "NOREL"), bb("max_b2_s3", 2, 0, "1,0,", "", 2, 3, "SEL=2", "FMAX=1", "MAXN=2", "NOREL", "FRAC=2"), bb("max_i1", 0, 1, "", "0,", 1, 2, "SEL=1", "FMAX=3", "MAXN=3", "NOREL"), bb("max_m", 1, 1, "2,", "0,", 1, 0, "SEL=1", "FMAX=1", "MAXN=2", "NOREL", "IHI=1")]
    q += [bb("unb_b1", 1, 0, "1,", "", 0, 0, "UNB", "MAXN=3", "REP=2", "ETA=1"), bb("unb_i1", 0, 1, "", "1,", 0, 3, "UNB", "MAXN=2", "FMAX=1", "SEL=0"), bb("rep_b1_s3", 1, 0, "0,", "", 1, 3, "REP=2", "MAXN=2", "STAT=1", "NOREL", "SEL=2"), bb("rep_b1_s1", 1, 0, "0,", "", 1, 1, "REP=2", "MAXN=2", "STAT=1", "SEL=1"), bb("rel_b1", 1, 0, "0,", "", 1, 4, "FRAC=0", "MAXN=4")]
    if t == "thorough": q += [bb("tmax_b2_s%d" % k, 2, 0, "0,1,", "", 2, k, "SEL=%d" % (k % 3), "FMAX=2", "MAXN=5", "NOREL", t=800) for k in range(5)]
    return q

@prop("C13", RSX + "The real AMD (order, valid, preprocess, aat, amd_1, amd_2, postorder, post_tree) on every sorted pattern, every list of unsorted/duplicate rows and every malformed column structure within the bounds, and on larger patterns with some entries symbolic (workspace compaction, dense rows); integers only, every branch follows the symbolic pattern.", ["allocation succeeds", "jobs n8, n22, gc*: only the listed entries of a fixed larger pattern are symbolic"])
def c13(t):
    A = ("amd",); o = dict(groups=A, timeout=250); U = "SYMP(i,j)=((i)<(j))"
    GC = {"gc12": (12, "0x0,0x1,0x0,0x4,0x3,0x1c,0x20,0x1,0x44,0xc1,0x2c8,0x222"), "gc13": (13, "0x0,0x0,0x0,0x6,0x3,0x1,0x0,0x4,0x21,0x36,0x1e8,0x41,0xd00"), "gc14": (14, "0x0,0x0,0x1,0x6,0x8,0x10,0x2,0x8,0x80,0x102,0x242,0x51,0x40c,0x811"), "gc16": (16, "0x0,0x1,0x2,0x4,0x8,0x8,0x38,0x16,0x64,0xa6,0x154,0x428,0x884,0x2c3,0x316b,0x347")}
    q = [rsx("n1","c13.c",["PART=0","NN=1","CTL=5"],**o), rsx("n2","c13.c",["PART=0","NN=2","CTL=5"],**o), rsx("n3","c13.c",["PART=0","NN=3","CTL=5"],**o), rsx("n5","c13.c",["PART=0","NN=5","CTL=0",U],**o), rsx("n4l","c13.c",["PART=0","NN=4","CTL=0","BASE(i,j)=((i)==(j))","SYMP(i,j)=((i)!=(j)&&((i)+(j))%4!=1)"],**o),
         rsx("j2","c13.c",["PART=1","NN=2","CE=3","CTL=0"],**o), rsx("j3","c13.c",["PART=1","NN=3","CE=2","CTL=0"],**o), rsx("bad2","c13.c",["PART=2","NN=2","MXZ=3","CTL=0"],**o),
         rsx("n8","c13.c",["PART=0","NN=8","CTL=2","BASE(i,j)=((i)<(j)&&((j)-(i)==1||(j)-(i)==4))","SYMP(i,j)=((i)<(j)&&((j)-(i)==3||(j)-(i)==6))"],**o), rsx("n22","c13.c",["PART=0","NN=22","CTL=5","BASE(i,j)=((j)>19||(j)==(i)+1)","SYMP(i,j)=((j)==20&&(i)<6&&(i)>2)"],**o)]
    q += [rsx(k,"c13.c",["PART=0","NN=%d"%n,"CTL=0","GCB="+g,"SYMP(i,j)=((j)==%d&&(i)<6)"%(n-3)],**o) for k,(n,g) in GC.items()]
    if t == "thorough": q += [rsx("n6","c13.c",["PART=0","NN=6","CTL=0",U],groups=A,timeout=800,opts={"max_paths":80000}), rsx("bad3","c13.c",["PART=2","NN=3","MXZ=3","CTL=0"],groups=A,timeout=600,opts={"max_paths":300000}), rsx("n4","c13.c",["PART=0","NN=4","CTL=0","SYMP(i,j)=((i)!=(j))"],groups=A,timeout=600), rsx("n5c","c13.c",["PART=0","NN=5","CTL=5",U],groups=A,timeout=600)] + [rsx(k+"b","c13.c",["PART=0","NN=%d"%n,"CTL=2","GCB="+g,"SYMP(i,j)=((j)==%d)"%(n-5)],groups=A,timeout=600) for k,(n,g) in GC.items()]
    return q

@prop("C22", RSX + "The real ECOS_setup, ECOS_solve, ECOS_updateData, entry updates, ECOS_cleanup and their branch-and-bound counterparts, with malloc blocks of exactly the requested size: every access is checked against its block and its lifetime, any use of uninitialised memory is an error, all blocks are accounted for, the caller's arrays are compared.", ["allocation succeeds", "row indices in range, column pointers monotone, G not null when there are cone rows", "solve jobs: numbers in IEEE arithmetic; all others: symbolic data, exact arithmetic, norms replaced by arbitrary values of at least one per entry"])
def c22(t):
    S = ("solver","ldl","amd"); o = dict(groups=S, timeout=250); B = dict(groups=S+("bb",), timeout=250); I = dict(groups=S, timeout=120, opts={"ieee": True})
    q = [rsx("n1p1l1q2","c22.c",["PART=0","NV=1","PEQ=1","LP=1","NSOC=1","SOCS=2"],**o), rsx("n2l2","c22.c",["PART=0","NV=2","LP=2","KEEP=2"],**o), rsx("n1p1l1e1","c22.c",["PART=0","NV=1","PEQ=1","NEXC=1","LP=1","KEEP=3"],**o), rsx("gnull","c22.c",["PART=0","NV=2","PEQ=2","GNULL","GMASK=0"],**o), rsx("n1q1q1","c22.c",["PART=0","NV=1","NSOC=2","SOCS=1,1"],**o), rsx("e2q3p2","c22.c",["PART=0","NV=2","PEQ=2","NEXC=2","NSOC=1","SOCS=3","GMASK=0x2D96B","AMASK=11"],**o), rsx("n3p1q3","c22.c",["PART=0","NV=3","PEQ=1","NSOC=1","SOCS=3","KEEP=1","GMASK=0x85"],**o),
         rsx("dim","c22.c",["PART=1","NV=1","PEQ=1","LP=1","NSOC=2","SOCS=2,2","GMASK=0x15","AMASK=1"],**o), rsx("dime","c22.c",["PART=1","NV=1","LP=1","NEXC=1","NSOC=1","SOCS=2"],**o), rsx("dup","c22.c",["PART=2","NV=1","PEQ=1","LP=2","CMAX=2"],**o), rsx("dup2","c22.c",["PART=2","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2","CMAX=2","GMASK=0x29"],**o), rsx("dup3","c22.c",["PART=2","NV=2","PEQ=1","LP=1","CMAX=2"],**o),
         rsx("bb_b1i1","c22.c",["PART=3","NV=2","LP=1","NSOC=1","SOCS=2","NB=1","NI=1","BCOL=1,","ICOL=0,","GMASK=0x2D"],**B), rsx("bb_b2p1","c22.c",["PART=3","NV=2","PEQ=1","LP=1","NB=2","NI=0","BCOL=1,0,","ICOL="],**B), rsx("bb_i1e1","c22.c",["PART=3","NV=2","PEQ=1","NEXC=1","NB=0","NI=1","BCOL=","ICOL=1,","GMASK=0x2D","CMAX=2","KEEP=4"],**B), rsx("bb_none","c22.c",["PART=3","NV=1","NSOC=1","SOCS=2","NB=0","NI=0","BCOL=","ICOL=","KEEP=3"],**B)]
    q += [bb("bbs_b2", 2, 0, "0,1,", "", 2, 0, "SEL=0", "FMAX=1", "MAXN=3", "NOREL", "MEMONLY"), bb("bbs_i1", 0, 1, "", "0,", 1, 2, "SEL=1", "FMAX=2", "MAXN=4", "NOREL", "MEMONLY"), bb("bbs_m", 1, 1, "2,", "0,", 1, 0, "SEL=1", "FMAX=1", "MAXN=2", "NOREL", "IHI=1", "MEMONLY"), bb("bbs_i2", 0, 2, "", "2,0,", 1, 4, "SEL=1", "FMAX=1", "MAXN=3", "NOREL", "IHI=1", "MEMONLY"), bb("bbs_b1_s1", 1, 0, "1,", "", 0, 1, "MAXN=3", "MEMONLY"), bb("bbs_i1_s3", 0, 1, "", "0,", 1, 3, "SEL=0", "FMAX=1", "NOREL", "IHI=1", "MAXN=3", "REP=2", "MEMONLY")]
    cs = [("l3",["NV=2","LP=3","GMASK=0x3B"]), ("p1l2q3",["NV=2","PEQ=1","LP=2","NSOC=1","SOCS=3","GMASK=0x2DB","AMASK=3"]), ("l2q3e1",["NV=2","LP=2","NSOC=1","SOCS=3","NEXC=1","GMASK=0xADB6D"]), ("p2q2q2",["NV=3","PEQ=2","NSOC=2","SOCS=2,2","GMASK=0xD6B","AMASK=0x2B"]), ("e2p1",["NV=2","PEQ=1","NEXC=2","GMASK=0xB6D","AMASK=2"]), ("z1",["NV=2","LP=2","PEQ=1","GMASK=0","AMASK=0"])]
    q += [rsx("solve_%s_%d"%(n,k),"c22.c",["PART=4","ITER=%d"%(30 if t!="thorough" else 100),"SEED=%d"%k,"KEEP=%d"%((k+i)%5)]+d,**I) for i,(n,d) in enumerate(cs) for k in range(2 if t!="thorough" else 8)]
    if t == "thorough": q += [rsx("n2p1q3","c22.c",["PART=0","NV=2","PEQ=1","NSOC=1","SOCS=3","KEEP=1"],groups=S,timeout=600), rsx("n2p1l1q2","c22.c",["PART=0","NV=2","PEQ=1","LP=1","NSOC=1","SOCS=2","KEEP=4"],groups=S,timeout=800,opts={"max_paths":80000}), rsx("bb_full","c22.c",["PART=3","NV=2","LP=1","NSOC=1","SOCS=2","NB=1","NI=1","BCOL=1,","ICOL=0,","KEEP=4"],groups=S+("bb",),timeout=800), rsx("dup_q","c22.c",["PART=2","NV=2","LP=1","NSOC=1","SOCS=2","CMAX=2"],groups=S,timeout=800,opts={"max_paths":80000})]
    return q

@prop("C24", RSX + "Two runs of the real ECOS_solve on one workspace: all vectors, scalings, factors, statistics and work arrays the first run left behind are replaced by arbitrary symbolic reals (integers by poison), freshly allocated memory is arbitrary too; the second run must return the same numbers, none of them containing a leftover symbol, and no branch may depend on one.", ["representative problem instances (numbers, IEEE arithmetic) of every cone type; storage contents are symbolic", "equilibration factors are powers of two", "conic solver (the branch-and-bound pseudocosts persist by design)"])
def c24(t):
    I = dict(groups=("solver","ldl","amd"), timeout=20, grace=2, exact=True, opts={"ieee": True, "max_paths": 6, "feas_ms": 500, "sym_branch": "the result of a solve does not depend on leftovers of an earlier one"}); T = t == "thorough"
    cs = [("l3",["NV=2","LP=3","GMASK=0x3B","BOXED"]), ("p1l2q3",["NV=2","PEQ=1","LP=2","NSOC=1","SOCS=3","GMASK=0x2DB","AMASK=3"]), ("l2q3e1",["NV=2","LP=2","NSOC=1","SOCS=3","NEXC=1","GMASK=0xADB6D","BOXED"]), ("p1q2q3",["NV=3","PEQ=1","LP=1","NSOC=2","SOCS=2,3","GMASK=0x1B6D5","AMASK=5","BOXED"]), ("e2p1",["NV=2","PEQ=1","NEXC=2","GMASK=0xB6D","AMASK=2","BOXED"]), ("l2e1",["NV=2","LP=2","NEXC=1","GMASK=0x2DB"]), ("p2l2",["NV=3","PEQ=2","LP=2","GMASK=0x2D","AMASK=0x2B"])]
    q = [rsx("%s_%d"%(n,k),"c24.c",["ITER=30","SEED=%d"%k]+d,**I) for n,d in cs for k in range(8 if T else 5)]
    q += [rsx("%s_it%d"%(n,k),"c24.c",["ITER=%d"%k,"SEED=%d"%((k+i)%4)]+d,**I) for i,(n,d) in enumerate(cs) for k in ((0,1,2,3,5,8) if T else (0,2))]
    q += [rsx("seq_%s_%d"%(n,k),"c24.c",["ITER=30","SEQ=1","SEED=%d"%(k+i)]+d,**I) for i,(n,d) in enumerate(cs) for k in range(4 if T else 1)]
    return q
