"""One solver job in its own process: worker.py job.json result.json"""
import sys, json, os, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    job = json.load(open(sys.argv[1]))
    if job["engine"] == "rsx":
        resource.setrlimit(resource.RLIMIT_AS, (job.get("mem_gb", 6) << 30,) * 2)
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.RLIM_INFINITY)) if False else None
        import threading
        threading.stack_size(512 << 20)
        import run
        box = {}
        def go():
            box["r"] = run.run_job(job)
        import time; t0 = time.time()
        t = threading.Thread(target=go, daemon=True); t.start(); t.join(job["timeout"] * 1.3 + job.get("grace", 20))
        if t.is_alive(): r = run.partial(job, t0); json.dump(r, open(sys.argv[2], "w"), default=str); os._exit(0)
        r = box.get("r") or {"id": job["id"], "error": "worker died"}
    else:
        import cb
        r = cb.run_cbmc(job)
    json.dump(r, open(sys.argv[2], "w"), default=str)
main()
