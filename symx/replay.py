"""Run under the interpreter that has the real mathutils:
   replay.py JOBS.json  ->  one JSON line per job on stdout
or, for a person:
   replay.py --show VIOLATION.json"""
import json
import os
import resource
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def run_job(job, timeout=20):
    """In a forked child, so that endless loops and crashes are contained."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = {}
        try:
            # code that blows up must not take the machine with it
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            sys.stdout = open(os.devnull, "w")
            out = _run(job)
        except BaseException as e:          # noqa: reported to the parent
            out = {"status": "error", "error": "%s: %s" % (type(e).__name__, e)}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    import select
    data = b""
    import time
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"status": "timeout", "failed": ["does not terminate within %d s" % timeout]}
        rs, _, _ = select.select([r], [], [], left)
        if rs:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    os.waitpid(pid, 0)
    os.close(r)
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "died", "failed": ["the interpreter died"]}


def _run(job):
    from symx import loader, concrete
    from harness import registry
    registry.load_all()
    h = registry.H[job["harness"]]
    m = loader.load(False)
    ctx = concrete.CCtx(job["values"], job["choices"], job.get("tolf", 0.5))
    st = "ok"
    try:
        h.fn(ctx, m)
    except concrete.Stop as e:
        st = str(e)
    return {"status": st, "failed": ctx.failed, "passed": ctx.passed}


def main():
    if sys.argv[1] == "--show":
        job = json.load(open(sys.argv[2]))
        print(json.dumps(job, indent=1))
        res = run_job(job)
        print(res)
        sys.exit(1 if res.get("failed") else 0)
    jobs = json.load(open(sys.argv[1]))
    hung = 0
    for job in jobs:
        # after two runs that did not end, the rest is not worth waiting for as long
        res = run_job(job, 20 if hung < 2 else 3)
        if res["status"] == "timeout":
            hung += 1
            if hung > 2:
                res = {"status": "timeout"}
        print(json.dumps(res), flush=True)


if __name__ == "__main__":
    main()
