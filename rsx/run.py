"""Build IR from /repo, run one harness configuration under rsx, replay counterexamples natively."""
import os, subprocess, sys, json, time, tempfile, shutil, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("RS_REPO", "/repo")
DEFS = ["-DCTRLC=1", "-DLDL_LONG", "-DDLONG"]
INCS = ["-I%s/include" % REPO, "-I%s/external/amd/include" % REPO, "-I%s/external/ldl/include" % REPO, "-I%s/external/SuiteSparse_config" % REPO, "-I" + HERE]
GROUPS = {
 "solver": ["src/ecos.c", "src/cone.c", "src/kkt.c", "src/spla.c", "src/splamm.c", "src/equil.c", "src/preproc.c", "src/expcone.c", "src/wright_omega.c", "src/timer.c", "src/ctrlc.c"],
 "ldl": ["external/ldl/src/ldl.c"],
 "bb": ["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"],
}
def amd_sources():
    d = os.path.join(REPO, "external/amd/src")
    return ["external/amd/src/" + f for f in sorted(os.listdir(d)) if f.endswith(".c") and not f.startswith("amd_dump")]
def sources(groups):
    out = []
    for g in groups:
        if g == "amd": out += amd_sources()
        elif g in GROUPS:
            out += GROUPS[g]
            if g == "solver" or g == "bb":   # sources a change may have added
                d = "src" if g == "solver" else "ecos_bb"
                for f in sorted(os.listdir(os.path.join(REPO, d))):
                    p = d + "/" + f
                    if f.endswith(".c") and p not in out and not f.startswith("runecos"): out.append(p)
        else: out.append(g)
    return out
def cc_ir(src, out, extra=()):
    c = ["clang", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-discard-value-names", "-fno-builtin", "-w"] + DEFS + INCS + list(extra) + [src, "-o", out + ".0"]
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("clang failed on %s: %s" % (src, r.stderr[-2000:]))
    r = subprocess.run(["opt", "-S", "-passes=sroa", out + ".0", "-o", out], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("opt failed on %s: %s" % (src, r.stderr[-2000:]))
    os.unlink(out + ".0")

class Build:
    """IR of the repo sources, compiled once per check process"""
    def __init__(self, work): self.work = work; self.ir = {}
    def get(self, groups):
        from concurrent.futures import ThreadPoolExecutor
        srcs = sources(groups)
        todo = [s for s in srcs if s not in self.ir]
        def one(s):
            o = os.path.join(self.work, s.replace("/", "_") + ".ll")
            cc_ir(os.path.join(REPO, s), o); return s, o
        with ThreadPoolExecutor(8) as ex:
            for s, o in ex.map(one, todo): self.ir[s] = o
        return [(s, self.ir[s]) for s in srcs]

CUR = {}
def fill(res, eng):
    import terms
    res.update(paths=eng.completed, explored=eng.paths, steps=eng.steps, asserts=eng.asserts, violations=eng.violations, undecided=eng.undecided[:20], n_undecided=len(eng.undecided),
               funcs={(k[0] or "") + ":" + k[1] if k[0] else k[1]: v for k, v in eng.funcs_run.items()},
               assumed=eng.assumed, covered=eng.covered, stats=dict(terms.STATS), identities_confirmed=eng.identok, identities_normal_form_only=eng.identskip, overrides=sorted(eng.overrides))
    # repo functions (not harness)
    res["repo_funcs"] = sorted({k[1] for k in eng.funcs_run if not getattr(eng.fn[k].mod, "harness", False)})
def partial(job, t0):
    """what a worker that ran out of time has established so far"""
    res = {"id": job["id"], "harness": os.path.basename(job["harness"]), "defs": job["defs"], "wall": time.time() - t0}
    for k in range(50):
        try:
            eng = CUR["eng"]
            if eng.opts.get("sym_branch"): eng.sym_timeout()
            fill(res, eng); break
        except KeyError: res["error"] = "worker ran out of time before it started"; return res
        except RuntimeError: time.sleep(0.02)
    res["undecided"] = (res.get("undecided") or []) + [{"what": "deadline (worker stopped)"}]; res["n_undecided"] = len(res["undecided"])
    return res

def run_job(job):
    """job: dict(harness, defs, irs, opts, work, entry, id) -> result dict (runs in a worker process)"""
    t0 = time.time()
    import terms, ex
    res = {"id": job["id"], "harness": os.path.basename(job["harness"]), "defs": job["defs"]}
    try:
        opts = dict(job.get("opts", {}))
        if "timeout" in opts: opts["deadline"] = time.time() + opts.pop("timeout")
        h = os.path.join(job["work"], "h_%s.ll" % job["id"])
        cc_ir(job["harness"], h, ["-D" + d for d in job["defs"]] + ["-I" + os.path.dirname(job["harness"])])
        eng = ex.Engine(opts); CUR["eng"] = eng
        for s, o in job["irs"]: eng.load(open(o).read(), s)
        eng.load(open(h).read(), "harness", harness=True)
        eng.link()
        if job.get("axioms"):
            import axioms
            for a in job["axioms"]: axioms.install(a)
        sys.setrecursionlimit(20000)
        eng.run(job.get("entry", "harness"))
        fill(res, eng)
    except Exception as e:
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["wall"] = time.time() - t0
    return res

def native_build(job, work, tag, sanitize=True):
    """compile the harness with gcc against the real sources (weakened so that stubs can replace functions)"""
    d = os.path.join(work, "nat_" + tag); os.makedirs(d, exist_ok=True)
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow,pointer-overflow"] if sanitize else []
    objs = []
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        o = os.path.join(d, s.replace("/", "_") + ".o")
        subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-fno-inline", "-fno-ipa-ra", "-fno-ipa-cp", "-fno-ipa-pure-const", "-w", "-c"] + san + DEFS + INCS + [os.path.join(REPO, s), "-o", o], check=True, capture_output=True)
        subprocess.run(["objcopy", "--weaken", o], check=True, capture_output=True)
        return o
    with ThreadPoolExecutor(8) as exr: objs = list(exr.map(one, [s for s, _ in job["irs"]]))
    exe = os.path.join(d, "replay")
    subprocess.run(["gcc", "-O1", "-g", "-w", "-DRS_NATIVE=1"] + san + DEFS + INCS + ["-D" + x for x in job["defs"]] + ["-I" + os.path.dirname(job["harness"]), job["harness"], os.path.join(HERE, "rs_native.c")] + objs + ["-lm", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc", "-o", exe], check=True, capture_output=True)
    return exe

def replay(exe, inputs, outfile, timeout=60, env=None, pre=(), _rnd=None, exact=False):
    with open(outfile, "w") as f:
        for k, name, v in inputs: f.write("%s %s %.17g\n" % (k, name.replace(" ", "_"), v))
    env = dict(os.environ, **(env or {})); env.update(RS_VALUES=outfile, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="exitcode=98")
    if _rnd is not None: env["RS_ROUND"] = str(_rnd)
    try: r = subprocess.run(list(pre) + [exe], capture_output=True, env=env, timeout=timeout)
    except subprocess.TimeoutExpired: return "timeout", ""
    out = (r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"))
    if "RS-FAIL" in out:
        if _rnd is None and not exact and noise(exe, inputs, outfile, out, timeout, env, pre): return "noise", out[-500:]
        return "fail", out[-3000:]
    if r.returncode in (99, 98) or "AddressSanitizer" in out or "runtime error" in out: return "fail", out[-3000:]
    if r.returncode < 0: return "crash", out[-3000:]
    if "RS-ASSUME-FAILED" in out: return "assume", out[-500:]
    if r.returncode == 0: return "pass", out[-500:]
    return "other", out[-1000:]

def noise(exe, inputs, outfile, out, timeout, env, pre):
    """a failed equality whose two sides move by a comparable amount when only the rounding mode changes is rounding noise, not a violation"""
    import re
    def parse(o):
        m = re.search(r"RS-FAIL (.*): (\S+) vs (\S+)", o)
        return (m.group(1), float(m.group(2)), float(m.group(3))) if m else None
    p0 = parse(out)
    if not p0: return False
    A, B = [p0[1]], [p0[2]]
    for m in (1, 2, 3):
        st, o = replay(exe, inputs, outfile, timeout, env, pre, _rnd=m)
        if st == "pass": return True
        p = parse(o)
        if not p or p[0] != p0[0]: continue
        A.append(p[1]); B.append(p[2])
    var = max(max(A) - min(A), max(B) - min(B)); gap = min(abs(a - b) for a, b in zip(A, B))
    return not (gap > 100 * var) if var == var else False
