import json, sys
sys.path.insert(0, '/verif'); import jobs
NA = {
 "C25": "The omega function is built from transcendental logarithms and a third-order correction evaluated in floating point; its claim is a rounding-error bound over the reals' logarithm, for which neither the real-arithmetic solver (log is uninterpreted) nor the bit-precise one (no decision procedure for log) has a theory, so no solver verdict over all arguments can be had here.",
 "C26": "Floating-point convergence of the whole interior-point method for every well-posed problem: an unbounded number of iterations of dense non-linear arithmetic with rounding; no bounded symbolic encoding decides it.",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in jobs.REG:
        f, meta = jobs.REG[i]; js = f("quick")
        eng = sorted({j['engine'] for j in js})
        tech = {"rsx": "symbolic execution of the LLVM IR over exact reals, decided by z3 (QF_NRA)", "cbmc": "bit-precise bounded symbolic execution, decided by CBMC's SAT back end"}
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i, "evidence_file": "evidence/%s.json" % i, "technique": "; ".join(tech[e] for e in eng) + "; counterexamples replayed natively", "level": meta["level"],
          "level_note": meta["explanation"] + " Assumes: " + ("; ".join(meta["assumptions"]) or "nothing beyond the bounds") + "."})
    else: na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && cbmc --version && clang --version", "checks": checks, "not_applicable": na,
  "notes": "All checks: /verif/check.py <id>. Solver jobs and bounds: /verif/jobs.py. No hooks are used in /repo."}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
