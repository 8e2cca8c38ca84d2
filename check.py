#!/usr/bin/env python3-vt
"""Decide one property with the solver: check.py <PROPERTY> [--job substr] [--tier quick|thorough] | check.py --replay FILE

Every run compiles /repo's current sources again (clang IR for rsx, goto-cc for CBMC), runs the property's
solver jobs, replays every counterexample natively against the real code and reports only confirmed ones."""
import sys, os, json, time, tempfile, shutil, subprocess, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rsx")); sys.path.insert(0, HERE)
import run, cb, jobs as J
CORES = int(os.environ.get("RS_CORES", "8"))
def harness_path(h): return os.path.join(HERE, "h", h)

def schedule(js, work, deadline, verbose):
    """run the jobs, at most CORES cores at a time"""
    todo = sorted(js, key=lambda j: -j.get("weight", j.get("timeout", 60))); running = []; done = []; used = 0
    while todo or running:
        i = 0
        while i < len(todo):
            need = min(CORES, todo[i].get("cores", 1))
            if used + need <= CORES:
                j = todo.pop(i); used += need
                left = deadline - time.time()
                j["timeout"] = max(5, min(j.get("timeout", 120), left - 20))
                if j["engine"] == "rsx": j.setdefault("opts", {})["timeout"] = j["timeout"]
                jf = os.path.join(work, "job_%s.json" % j["id"]); of = os.path.join(work, "res_%s.json" % j["id"])
                json.dump(j, open(jf, "w"))
                p = subprocess.Popen([sys.executable, os.path.join(HERE, "rsx", "worker.py"), jf, of], env=dict(os.environ, RS_Z3LEAK="1") if j.get("retried") else None, stdout=subprocess.DEVNULL, stderr=open(of + ".err", "w"), start_new_session=True)
                running.append((p, j, of, time.time(), need))
            else: i += 1
        nr = []
        for p, j, of, t0, need in running:
            rc = p.poll()
            hard = j["timeout"] * 1.5 + 45 + (260 if j["engine"] == "cbmc" else 0)
            if rc is None and (time.time() - t0 > hard or time.time() > deadline + 30):
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait(); rc = -9
            if rc is None: nr.append((p, j, of, t0, need)); continue
            used -= need
            try: r = json.load(open(of))
            except Exception:
                if rc in (-11, -6, -4) and not j.get("retried") and time.time() < deadline - 40:   # crash inside the solver: once more, keeping solver objects alive
                    j["retried"] = True; todo.append(j); continue
                err = open(of + ".err").read()[-800:] if os.path.exists(of + ".err") else ""
                r = {"id": j["id"], "error": "worker ended with %s %s" % (rc, err), "wall": time.time() - t0, "defs": j["defs"]}
            done.append((j, r))
            if verbose: print("  job %-28s %6.1fs %s" % (j["id"], r.get("wall", 0), summary(r)), file=sys.stderr, flush=True)
        running = nr
        if running: time.sleep(0.05)
    return done

def summary(r):
    if r.get("error"): return "ERROR " + r["error"].strip().splitlines()[-1][:200]
    a = r.get("asserts", {})
    return "paths=%s asserts=%d (%d closed, %d viol, %d unknown) reach=%s%s" % (r.get("paths"), sum(x["checked"] for x in a.values()), sum(x.get("unsat", 0) + x.get("concrete", 0) for x in a.values()), sum(x["viol"] for x in a.values()), sum(x["unknown"] for x in a.values()), ",".join(r.get("covered", {})), (" UNDECIDED %s" % [u.get("what") for u in r["undecided"][:3]]) if r.get("undecided") else "")

class Native:
    def __init__(self, work): self.work = work; self.c = {}; self.n = 0
    def exe(self, job, san, lib=True):
        k = (job["harness"], tuple(job["defs"]), tuple(job["groups"]), san)
        if k not in self.c:
            self.n += 1
            j = dict(job, irs=[(s, None) for s in run.sources(job["groups"])])
            try: self.c[k] = run.native_build(j, self.work, "n%d" % self.n, sanitize=san)
            except subprocess.CalledProcessError as e: self.c[k] = None; self.err = (e.stderr or b"").decode(errors="replace")[-800:]
        return self.c[k]
    def confirm(self, job, v):
        """replay a counterexample on the real code; returns (confirmed, how, output)"""
        vals = os.path.join(self.work, "vals")
        kind = v.get("kind")
        if kind == "uninit" or "uninitialised" in v["msg"] or job.get("replay") == "fill":
            e = self.exe(job, False)
            if not e: return False, "build", self.err
            outs = []
            for f in ("0", "65", "127", "191"):
                st, o = run.replay(e, v["inputs"], vals, env={"RS_FILL": f})
                if st in ("fail", "crash"): return True, "replay (heap filled with byte %s): %s" % (f, st), o
                outs.append("\n".join(l for l in o.splitlines() if l.startswith("RS-OBS")))
            if len(set(outs)) > 1: return True, "replay: the outcome depends on the initial contents of freshly allocated memory", "\n--\n".join(o[-400:] for o in outs)
            if shutil.which("valgrind"):
                st, o = run.replay(e, v["inputs"], vals, pre=["valgrind", "-q", "--error-exitcode=97", "--track-origins=no"], timeout=120)
                if "Conditional jump" in o or "uninitialised value" in o or "Invalid read" in o or "Invalid write" in o: return True, "replay under valgrind", o
            return False, "not reproduced", o
        st, o = "build", ""
        e = self.exe(job, job.get("san", True))
        if not e: return False, "build", self.err
        st, o = run.replay(e, v["inputs"], vals, exact=job.get("exact", False))
        if st in ("fail", "crash"): return True, "replay: " + st, o
        if st == "timeout" and (kind in ("limit", "unwind")): return True, "replay does not terminate", o
        return False, "replay: " + st, o

def known(prop):
    try: K = json.load(open(os.path.join(HERE, "known_findings.json")))
    except Exception: return []
    return [k for k in K.get("known", []) if k["property"] == prop]
def matches(k, job, v):
    return re.search(k["message"], v["msg"]) and (not k.get("where") or re.search(k["where"], v.get("where", "") or "")) and (not k.get("job") or re.search(k["job"], job["id"]))

def main():
    if sys.argv[1] == "--replay": return do_replay(sys.argv[2])
    prop = sys.argv[1]; verbose = "-v" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick"); filt = None
    for i, a in enumerate(sys.argv):
        if a == "--tier": tier = sys.argv[i+1]
        if a == "--job": filt = sys.argv[i+1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time(); deadline = t0 + float(os.environ.get("RS_BUDGET", 420 if tier == "quick" else 800))
    work = tempfile.mkdtemp(prefix="rs_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 0
    try: rc = go(prop, tier, seed, filt, work, t0, deadline, verbose)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def go(prop, tier, seed, filt, work, t0, deadline, verbose):
    js, meta = J.jobs(prop, tier)
    if filt: js = [j for j in js if filt in j["id"]]
    B = run.Build(work); G = cb.GB(work); builderr = {}
    notes = []
    for j in js:
        j["work"] = work; j["harness"] = harness_path(j["harness"]) if not j["harness"].startswith("/") else j["harness"]
        j["id"] = prop + "_" + j["id"]
        key = (j["engine"], tuple(j["groups"]))
        try:
            if j["engine"] == "rsx": j["irs"] = B.get(j["groups"]); j.setdefault("opts", {}).setdefault("seed", seed)
            else: j["gbs"] = G.get(j["groups"])
        except RuntimeError as e:
            builderr[key] = str(e); j["skip"] = True
    tb = time.time() - t0
    run_js = [j for j in js if not j.get("skip")]
    done = schedule(run_js, work, deadline, verbose)
    nat = Native(work); viol = []; unconf = []; knownhit = {}
    KF = known(prop); rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for j, r in done:
        seen = set()
        for v in r.get("violations", []):
            if len(viol) >= 3: break
            key = (v["msg"], v.get("where"))
            if key in seen: continue
            ok, how, out = nat.confirm(j, v)
            if verbose: print("  cex %s: %s | %s -> %s %s" % (j["id"], v["msg"], v.get("where"), how, out[-300:].replace("\n", " / ")), file=sys.stderr)
            if not ok: unconf.append({"job": j["id"], "message": v["msg"], "where": v.get("where"), "replay": how, "output": out[-300:]}); continue
            seen.add(key)
            k = next((k for k in KF if matches(k, j, v)), None)
            if k: knownhit.setdefault(k["id"], (k, j["id"])); continue
            f = os.path.join(rdir, "%s-%d.json" % (j["id"], len(viol)))
            json.dump({"property": prop, "harness": os.path.relpath(j["harness"], HERE), "defs": j["defs"], "groups": j["groups"], "san": j.get("san", True), "replay_kind": j.get("replay"), "exact": j.get("exact", False), "violation": v, "confirmed_by": how, "output": out[-3000:], "rerun": "python3-vt %s --replay %s" % (os.path.abspath(__file__), f)}, open(f, "w"), indent=1, default=str)
            viol.append((j, v, f, how))
    write_evidence(prop, tier, seed, js, meta, done, builderr, viol, unconf, knownhit, t0, tb)
    for k, jid in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for j, v, f, how in viol:
        print("%s [%s] %s (%s)" % (j["id"], v.get("where"), v["msg"], how))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    nu = sum(len(r.get("undecided", [])) + (1 if r.get("error") else 0) for _, r in done) + len(builderr) + len(unconf)
    print("%s: %d jobs, %d violations, %d undecided, %.1fs" % (prop, len(done), len(viol), nu, time.time() - t0))
    if viol: return 1
    decided = sum(sum(a["checked"] for a in r.get("asserts", {}).values()) for _, r in done if not r.get("error"))
    if not decided: print("%s: nothing could be decided" % prop); return 2
    return 0

def write_evidence(prop, tier, seed, js, meta, done, builderr, viol, unconf, knownhit, t0, tb):
    agg = {}; funcs = set(); reach = {}; q = 0; st = 0.0; paths = 0; steps = 0; per = []; und = []; assumed = {}; vac = []; unre = []
    for j, r in done:
        for m, a in r.get("asserts", {}).items():
            e = agg.setdefault(m, {"checked": 0, "closed_by_solver": 0, "closed_by_normal_form": 0, "violated": 0, "unknown": 0})
            e["checked"] += a["checked"]; e["closed_by_solver"] += a.get("unsat", 0); e["closed_by_normal_form"] += a.get("concrete", 0); e["violated"] += a["viol"]; e["unknown"] += a["unknown"]
        for k, n in r.get("covered", {}).items(): reach[k] = reach.get(k, 0) + n
        for k in r.get("unreached", []): unre.append("%s: %s" % (r["id"], k))
        funcs |= set(r.get("repo_funcs", []))
        s = r.get("stats", {}); q += s.get("queries", 0) + r.get("queries", 0); st += s.get("time", 0) + r.get("dp_time", 0)
        paths += r.get("paths") or 0; steps += r.get("steps", 0) or 0
        for k, n in r.get("assumed", {}).items(): assumed[k] = assumed.get(k, 0) + n
        for u in r.get("undecided", []): und.append("%s: %s" % (r["id"], u.get("what")))
        if r.get("error"): und.append("%s: %s" % (r["id"], r["error"].strip().splitlines()[-1][:300]))
        elif not sum(a["checked"] for a in r.get("asserts", {}).values()): vac.append(r["id"])
        per.append({"id": r["id"], "engine": j["engine"], "harness": os.path.basename(j["harness"]), "bounds": j["defs"], "unwind": j.get("unwind"), "paths": r.get("paths"), "steps": r.get("steps"), "asserts": sum(a["checked"] for a in r.get("asserts", {}).values()), "queries": s.get("queries", r.get("queries")), "solver_s": round(s.get("time", r.get("dp_time", 0)) or 0, 2), "sat_vars": r.get("vars"), "sat_clauses": r.get("clauses"), "replaced_by_harness": r.get("stubs") or [x for x in r.get("overrides", []) if x in funcs_of_repo()], "reached": r.get("covered", {}), "wall_s": round(r.get("wall", 0), 2)})
    for k, e in builderr.items(): und.append("build of %s: %s" % (k, e[:300]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "other"), "coverage": {
        "explanation": meta["explanation"], "functions_encoded": sorted(funcs), "assertions": agg, "obligations_checked": sum(a["checked"] for a in agg.values()), "queries_discharged": q, "solver_seconds": round(st, 2), "symbolic_paths": paths, "steps_encoded": steps,
        "reachability_witnesses": reach, "unreached": unre, "jobs": per, "undecided": und, "vacuous_jobs": vac, "unconfirmed_counterexamples": unconf, "known_findings_hit": sorted(knownhit), "build_seconds": round(tb, 2),
        "samples": [{"job": j["id"], "message": v["msg"], "inputs": v["inputs"][:20]} for j, v, f, how in viol[:2]] or per[:2]},
        "assumptions": meta.get("assumptions", []) + ["on %d branches: %s" % (n, k) for k, n in assumed.items()], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
_fr = None
def funcs_of_repo():
    global _fr
    if _fr is None:
        _fr = set()
        for s in run.sources(["solver", "ldl", "bb"]):
            try: _fr |= set(re.findall(r"^\w[\w\s\*]*?\b(\w+)\s*\([^;{]*\)\s*\{?\s*$", open(os.path.join(run.REPO, s)).read(), re.M))
            except OSError: pass
        _fr |= {"sigaction", "sigemptyset"}
    return _fr

def do_replay(f):
    d = json.load(open(f)); work = tempfile.mkdtemp(prefix="rs_replay_", dir="/tmp")
    try:
        job = {"harness": os.path.join(HERE, d["harness"]), "defs": d["defs"], "groups": d["groups"], "san": d["san"], "replay": d.get("replay_kind"), "exact": d.get("exact", False)}
        ok, how, out = Native(work).confirm(job, d["violation"])
        print(how); print(out)
        return sys.exit(1 if ok else 0)
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": main()
