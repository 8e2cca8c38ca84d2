"""CBMC engine: goto-cc of the current sources, stubs replaced, bit-precise solving, traces turned into replayable inputs."""
import os, subprocess, json, struct, time, resource
import run
CONE = ["--no-standard-checks"]
MEM = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check", "--undefined-shift-check"]

def sh(cmd, timeout, mem_gb=6):
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=lim)

class GB:
    """goto binaries of repo sources (compiled once per check run)"""
    def __init__(self, work): self.work = work; self.o = {}
    def get(self, groups, extra=()):
        from concurrent.futures import ThreadPoolExecutor
        out = []
        def one(s):
            key = (s,) + tuple(extra)
            if key in self.o: return self.o[key]
            o = os.path.join(self.work, "gb_%s_%d.gb" % (s.replace("/", "_"), abs(hash(tuple(extra))) % 10**6))
            r = subprocess.run(["goto-cc", "-c", "-o", o] + run.DEFS + run.INCS + list(extra) + [os.path.join(run.REPO, s)], capture_output=True, text=True)
            if r.returncode: raise RuntimeError("goto-cc failed on %s: %s" % (s, r.stderr[-1500:]))
            self.o[key] = o; return o
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, run.sources(groups)))

def symbols(gb):
    r = subprocess.run(["goto-instrument", "--list-goto-functions", gb], capture_output=True, text=True)
    return r.stdout

def funcs_with_body(gb):
    r = subprocess.run(["goto-instrument", "--list-goto-functions", "--json-ui", gb], capture_output=True, text=True)
    out = set()
    try:
        for d in json.loads(r.stdout):
            for f in d.get("functions", []) if isinstance(d, dict) else []:
                if f.get("isBodyAvailable"): out.add(f["name"])
    except Exception: pass
    return out

def run_cbmc(job):
    """job: id, harness, defs, gbs, work, cbmc(list of options), unwind, unwindset, timeout, mem(bool), drop (functions to drop bodies of)"""
    t0 = time.time()
    res = {"id": job["id"], "engine": "cbmc", "harness": os.path.basename(job["harness"]), "defs": job["defs"], "violations": [], "asserts": {}, "covered": {}, "undecided": [], "unreached": []}
    try:
        w = job["work"]; pre = os.path.join(w, "cb_" + job["id"])
        h = pre + "_h.gb"
        r = subprocess.run(["goto-cc", "-c", "-DRS_CBMC=1", "-o", h] + run.DEFS + run.INCS + ["-D" + d for d in job["defs"]] + ["-D" + d for d in job.get("extra_defs", [])] + ["-I" + os.path.dirname(job["harness"]), job["harness"]], capture_output=True, text=True)
        if r.returncode: res["error"] = "harness does not compile: " + r.stderr[-1500:]; return res
        hf = funcs_with_body(h)
        stubs = sorted(f for f in hf if not f.startswith("rs_") and f not in ("harness",) and not f.startswith("__CPROVER"))
        lib = pre + "_lib.gb"
        r = subprocess.run(["goto-cc", "-o", lib] + job["gbs"], capture_output=True, text=True)
        if r.returncode and not os.path.exists(lib): res["error"] = "link: " + r.stderr[-1000:]; return res
        lf = funcs_with_body(lib)
        rm = [f for f in stubs if f in lf] + [f for f in job.get("drop", []) if f in lf]
        res["stubs"] = rm
        if rm:
            args = []
            for f in rm: args += ["--remove-function-body", f]
            lib2 = pre + "_lib2.gb"
            r = subprocess.run(["goto-instrument"] + args + [lib, lib2], capture_output=True, text=True)
            if r.returncode: res["error"] = "stubbing: " + r.stderr[-1000:]; return res
            lib = lib2
        a = pre + ".gb"
        r = subprocess.run(["goto-cc", "-o", a, "--function", "harness", lib, h], capture_output=True, text=True)
        if r.returncode: res["error"] = "link: " + (r.stderr + r.stdout)[-1500:]; return res
        fb = funcs_with_body(a)
        opts = (MEM + ["--drop-unused-functions"] if job.get("mem") else CONE) + ["--unwinding-assertions", "--no-malloc-may-fail", "--slice-formula", "--object-bits", str(job.get("object_bits", 10)), "--unwind", str(job.get("unwind", 8))]
        if job.get("unwindset"): opts += ["--unwindset", ",".join(job["unwindset"])]
        opts += job.get("cbmc", [])
        t1 = time.time(); msgs = []; props = None
        deadline = t0 + job.get("timeout", 300)
        def one(extra):
            left = deadline - time.time()
            if left < 2: return None
            try: return sh(["cbmc", a, "--json-ui", "--verbosity", "8"] + opts + extra, left, job.get("mem_gb", 8))
            except subprocess.TimeoutExpired: return None
        if job.get("per_prop"):
            from concurrent.futures import ThreadPoolExecutor
            pl = []
            for d in parse(sh(["cbmc", a, "--json-ui", "--show-properties"] + opts, 60).stdout):
                for p in d.get("properties", []) if isinstance(d, dict) else []: pl.append(p)
            runs = [(["--no-assertions"], None)] + [(["--property", p["name"]], p) for p in pl]
            props = []
            with ThreadPoolExecutor(job.get("threads", 6)) as ex:
                for (e, p), r in zip(runs, ex.map(lambda x: one(x[0]), runs)):
                    if r is None:
                        if not (p and p.get("description", "").startswith("REACH:")): res["undecided"].append({"what": "time limit: " + (p["description"] if p else "unwinding assertions")})
                        continue
                    m = parse(r.stdout); msgs += m; got = False
                    for d in m:
                        if "result" in d: props += d["result"]; got = True
                    if not got and p: res["undecided"].append({"what": "no verdict: " + p["description"] + " " + r.stderr[-200:]})
        else:
            r = one([])
            if r is None: res["undecided"].append({"what": "cbmc: time limit"}); res["solver_time"] = time.time() - t1; return res
            msgs = parse(r.stdout)
        res["solver_time"] = time.time() - t1
        for d in msgs:
            if "result" in d and not job.get("per_prop"): props = d["result"]
            if d.get("messageType") == "ERROR": res.setdefault("cbmc_errors", []).append(d.get("messageText", "")[:300])
            t = d.get("messageText", "")
            if "variables," in t and "clauses" in t:
                try:
                    a1 = t.split(); res["vars"] = max(res.get("vars", 0), int(a1[0])); res["clauses"] = max(res.get("clauses", 0), int(a1[2]))
                except Exception: pass
            if t.startswith("size of program expression:"):
                res["steps"] = int(t.split(":")[1].split()[0])
            if "Runtime decision procedure" in t or "Runtime Solver" in t:
                res["queries"] = res.get("queries", 0) + 1
                try: res["dp_time"] = res.get("dp_time", 0) + float(t.split(":")[1].strip().rstrip("s"))
                except Exception: pass
        if props is None:
            res["undecided"].append({"what": "cbmc gave no result: rc %s %s %s" % (r.returncode, res.get("cbmc_errors"), r.stderr[-300:])}); return res
        bad = []
        for p in props:
            d = p.get("description", ""); st = p["status"]
            if d.startswith("REACH:"):
                nm = d[6:]
                if st == "FAILURE": res["covered"][nm] = res["covered"].get(nm, 0) + 1
                else: res["unreached"].append(nm)
                continue
            k = d
            unw = "unwinding assertion" in d or "recursion unwinding" in d
            fn = p.get("sourceLocation", {}).get("function", "") if isinstance(p.get("sourceLocation"), dict) else ""
            if unw: k = "loop bound suffices (%s)" % p["property"].split(".")[0]
            e = res["asserts"].setdefault(k, {"checked": 0, "unsat": 0, "viol": 0, "unknown": 0})
            e["checked"] += 1
            if st == "SUCCESS": e["unsat"] += 1
            elif st == "FAILURE":
                e["viol"] += 1
                if unw and not (job.get("unwind_viol") and any(x in p["property"] for x in job["unwind_viol"])): res["undecided"].append({"what": "unwinding bound too small: " + p["property"]})
                else: bad.append((p["property"], d))
            else: e["unknown"] += 1; res["undecided"].append({"what": d + ": " + st})
        bad.sort(key=lambda x: 0 if "." in x[0] and x[0].split(".")[0] == "harness" else 1)
        for prop, d in bad[:3]:
            left = max(20, job.get("timeout", 300) + 200 - (time.time() - t0))
            try: r = sh(["cbmc", a, "--json-ui", "--verbosity", "4", "--trace", "--property", prop] + [o for o in opts if o != "--slice-formula"], left, job.get("mem_gb", 8))
            except subprocess.TimeoutExpired:
                res["undecided"].append({"what": "no trace in time for: " + d}); continue
            inp = trace_inputs(parse(r.stdout))
            res["violations"].append({"kind": "assert" if not prop.split(".")[-2:-1] == ["unwind"] else "unwind", "msg": d, "where": prop, "inputs": inp or [], "funcs": [prop.split(".")[0]]})
        res["paths"] = 1
        res["repo_funcs"] = sorted(f for f in fb & lf - set(rm) if not f.startswith("__CPROVER") and reach(job, f, fb))
    except Exception as e:
        import traceback
        res["error"] = "".join(traceback.format_exception(e))[-2500:]
    finally:
        res["wall"] = time.time() - t0
        for s in ("_h.gb", "_lib.gb", "_lib2.gb", ".gb"):
            try: os.unlink(os.path.join(job["work"], "cb_" + job["id"] + s))
            except OSError: pass
    return res
def reach(job, f, fb): return True
def parse(s):
    try: return json.loads(s)
    except Exception:
        try: return json.loads(s.rstrip().rstrip(",") + "]")
        except Exception: return []
def trace_inputs(msgs):
    tr = None
    for d in msgs:
        for p in d.get("result", []) if isinstance(d, dict) else []:
            if p.get("status") == "FAILURE" and "trace" in p: tr = p["trace"]; break
    if tr is None: return None
    out = []
    for s in tr:
        if s.get("stepType") != "assignment": continue
        if s.get("sourceLocation", {}).get("function", "") in ("__CPROVER_initialize", "__CPROVER__start", "_start"): continue
        l = s.get("lhs", ""); v = s.get("value", {})
        if l == "rs_log_r" and s.get("assignmentType") != "actual-parameter" and not s.get("hidden"):
            b = v.get("binary")
            out.append(("r", "v", struct.unpack("<d", int(b, 2).to_bytes(8, "little"))[0] if b else float(v.get("data", "0"))))
        elif l == "rs_log_i" and not s.get("hidden"):
            b = v.get("binary"); n = int(b, 2)
            if n >= 1 << 63: n -= 1 << 64
            out.append(("i", "v", n))
    # static initialisation of the two log variables appears first
    return out
