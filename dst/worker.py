"""Worker process: imports the simulated world once, forks one child per run.

stdin: one JSON job per line; stdout: one JSON result per line.
"""

import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import time as _time

_real_time = _time.monotonic
_real_sleep = _time.sleep
# what one run may use
MEMORY = 2500 << 20


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    os.environ["TZ"] = "UTC"
    try:
        from . import env

        env.install()
        from . import child

        mod = importlib.import_module(f"dst.scen.{prop.lower()}")
        prep = getattr(mod, "prepare", None)
        if prep is not None:
            prep()
        env.code_objects()
    except BaseException as exc:
        import traceback

        out.write(json.dumps({
            "fatal": f"{type(exc).__name__}: {exc}\n" + traceback.format_exc()
        }) + "\n")
        out.flush()
        return 2
    gc.collect()
    gc.freeze()
    gc.disable()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    # jobs are read with raw os.read (no buffering across forks)
    buf = b""
    while True:
        while b"\n" not in buf:
            data = os.read(0, 1 << 16)
            if not data:
                return 0
            buf += data
        line, buf = buf.split(b"\n", 1)
        job = json.loads(line)
        if job.get("plan") is not None:
            seed, plan = job["seed"], job["plan"]
        else:
            seed, plan = child.plan_for(
                mod, job["base"], job["index"], job["tier"]
            )
        res = run_job(child, mod, seed, plan, job)
        res["id"] = job["id"]
        res["seed"] = seed
        if res["status"] != "ok" or job.get("want_plan"):
            res["plan"] = plan
        out.write(json.dumps(res) + "\n")
        out.flush()


def run_job(child, mod, seed, plan, job):
    rfd, wfd = os.pipe()
    limit = job.get("wall", 60)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(rfd)
            # a run that eats memory ends on its own
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            if job.get("debug"):
                import faulthandler

                faulthandler.dump_traceback_later(
                    max(limit - 2, 1), exit=False
                )
            child.execute(
                mod, seed, plan, job.get("decisions"), wfd,
                job.get("want_rec", False),
            )
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(3)
    os.close(wfd)
    data = b""
    deadline = _real_time() + limit
    hung = False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            continue
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        data += chunk
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if not data or hung:
        return {
            "status": "hang" if hung else "died",
            "sig": "hang" if hung else "died",
            "msg": f"wait status {status}", "hash": 0, "steps": 0,
            "switches": 0, "now": 0, "faults": {}, "probes": {},
            "stalls": 0, "threads": 0,
        }
    return json.loads(data)


if __name__ == "__main__":
    sys.exit(main())
