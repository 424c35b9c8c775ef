"""Runs the seeded search for one property, minimises and reports.

  runner.py check PROP [--tier quick|thorough] [--runs N] [--seconds S]
  runner.py replay FILE
  runner.py one PROP INDEX          (print one run; for development)
"""

import argparse
import hashlib
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.environ.get("DST_EVIDENCE", os.path.join(ROOT, "evidence"))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
NWORK = int(os.environ.get("DST_WORKERS", str(min(8, os.cpu_count() or 4))))


class Fatal(Exception):
    pass


class Pool:
    """Worker processes, each executing one simulation at a time."""

    def __init__(self, prop, n=NWORK):
        self.prop = prop
        self.jobs = queue.Queue()
        self.results = queue.Queue()
        self.tmp = tempfile.mkdtemp(prefix="dst-")
        self.procs = []
        self.stop = False
        self.n = n
        self.fatal = None
        self.ids = 0
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=env.get("DST_HASHSEED", "0"),
            PYTHONPYCACHEPREFIX=os.path.join(self.tmp, "pyc"),
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=ROOT,
            PYTHONWARNINGS="ignore",
            DST_SCRATCH=self.tmp,
            TMPDIR=self.tmp,
            HOME=self.tmp,
        )
        self.env = env
        self.err = open(os.path.join(self.tmp, "stderr"), "ab")
        self.threads = [
            threading.Thread(target=self._serve, daemon=True)
            for _ in range(n)
        ]
        for t in self.threads:
            t.start()

    def _spawn(self):
        proc = subprocess.Popen(
            [PY, "-m", "dst.worker", self.prop],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=self.env, cwd=self.tmp, bufsize=0,
        )
        self.procs.append(proc)
        out = proc.stdout
        line = self._line(proc)
        if line is None:
            raise Fatal("worker did not start: " + self.tail())
        if "fatal" in line:
            raise Fatal(line["fatal"])
        _ = out
        return proc

    @staticmethod
    def _line(proc):
        buf = b""
        while not buf.endswith(b"\n"):
            data = proc.stdout.readline()
            if not data:
                return None
            buf += data
        return json.loads(buf)

    def tail(self):
        try:
            with open(os.path.join(self.tmp, "stderr"), "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def _serve(self):
        proc = None
        try:
            proc = self._spawn()
            while not self.stop:
                job = self.jobs.get()
                if job is None:
                    break
                proc.stdin.write((json.dumps(job) + "\n").encode())
                res = self._line(proc)
                if res is None:
                    res = {"id": job["id"], "status": "died", "sig": "died",
                           "msg": "worker died: " + self.tail(), "hash": 0,
                           "steps": 0, "switches": 0, "now": 0, "faults": {},
                           "probes": {}, "stalls": 0, "threads": 0,
                           "seed": job.get("seed"), "plan": job.get("plan")}
                    proc = self._spawn()
                res["job"] = job
                self.results.put(res)
        except Fatal as exc:
            self.fatal = str(exc)
            self.results.put({"fatal": str(exc)})
        except (OSError, ValueError) as exc:
            if not self.stop:
                self.fatal = repr(exc)
                self.results.put({"fatal": repr(exc)})
        finally:
            if proc is not None:
                try:
                    proc.stdin.close()
                except OSError:
                    pass

    def submit(self, **job):
        self.ids += 1
        job["id"] = self.ids
        self.jobs.put(job)
        return self.ids

    def get(self):
        res = self.results.get()
        if "fatal" in res:
            raise Fatal(res["fatal"])
        return res

    def map(self, jobs):
        """Run jobs; results in job order."""
        ids = [self.submit(**j) for j in jobs]
        want = {i: n for n, i in enumerate(ids)}
        out = [None] * len(ids)
        left = len(ids)
        while left:
            res = self.get()
            n = want.get(res["id"])
            if n is not None:
                out[n] = res
                left -= 1
        return out

    def drain(self):
        """Drop queued jobs and wait for the running ones."""
        try:
            while True:
                self.jobs.get_nowait()
        except queue.Empty:
            pass

    def close(self):
        self.stop = True
        self.drain()
        for _ in self.threads:
            self.jobs.put(None)
        for p in self.procs:
            try:
                p.kill()
            except OSError:
                pass
        for p in self.procs:
            p.wait()
        self.err.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


# ------------------------------------------------------------------ findings
def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def known(findings, res):
    for k in findings:
        if res["sig"] == k["sig"] and all(
            part in res["msg"] for part in k.get("contains", [])
        ):
            return k
    return None


# -------------------------------------------------------------- minimisation
def shrinkable(plan, names):
    """Paths of the lists in the plan that may lose elements."""
    out = []

    def walk(node, path, hot):
        if isinstance(node, dict):
            for k in sorted(node):
                walk(node[k], path + (k,), k in names)
        elif isinstance(node, list):
            if hot:
                out.append(path)
            for i, x in enumerate(node):
                if isinstance(x, list) and hot:
                    walk(x, path + (i,), True)
                elif isinstance(x, dict):
                    walk(x, path + (i,), False)

    walk(plan, (), False)
    return out


def with_list(plan, path, new):
    plan = json.loads(json.dumps(plan))
    node = plan
    for k in path[:-1]:
        node = node[k]
    node[path[-1]] = new
    return plan


def get_at(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def minimise(pool, res, names, seconds, log):
    """Shrink the plan, then the decisions."""
    deadline = time.monotonic() + seconds
    sig = res["sig"]
    best = res
    wall = 20

    def attempt(cands):
        """cands: list of (plan, decisions, seed); first violating result."""
        jobs = [
            {"plan": p, "decisions": d, "seed": s, "wall": wall,
             "want_rec": True}
            for p, d, s in cands
        ]
        got = pool.map(jobs)
        for r in got:
            if r["sig"] == sig:
                return r
        return None

    # 1. plan lists
    progress = True
    rounds = 0
    while progress and time.monotonic() < deadline:
        progress = False
        rounds += 1
        for path in shrinkable(best["plan"], names):
            try:
                lst = get_at(best["plan"], path)
            except (KeyError, IndexError):
                continue
            size = len(lst)
            chunk = max(size // 2, 1)
            while chunk >= 1 and time.monotonic() < deadline:
                pos = 0
                removed = False
                while pos < len(lst) and time.monotonic() < deadline:
                    new = lst[:pos] + lst[pos + chunk:]
                    p = with_list(best["plan"], path, new)
                    cands = [(p, best["rec"], best["seed"])]
                    cands += [
                        (p, None, best["seed"] if k == 0 else
                         f"{best['seed']}~{k}")
                        for k in range(min(15, 2 * pool.n - 1))
                    ]
                    r = attempt(cands)
                    if r is not None:
                        best = r
                        lst = get_at(best["plan"], path)
                        progress = removed = True
                    else:
                        pos += chunk
                if not removed or chunk == 1:
                    chunk //= 2
        if rounds > 3:
            break
    log(f"plan minimised: {sum(len(get_at(best['plan'], p)) for p in shrinkable(best['plan'], names))} elements")

    # 2. decisions (ddmin under replay)
    deadline = max(deadline, time.monotonic() + seconds * 0.3)
    keys = sorted(best["rec"])
    cur = dict(best["rec"])
    r = attempt([(best["plan"], cur, best["seed"])])
    if r is None:
        return best
    best = r
    n = 2
    while len(cur) > 0 and time.monotonic() < deadline:
        keys = sorted(cur, key=_dkey)
        n = min(n, len(keys))
        size = max(1, len(keys) // n)
        chunks = [keys[i:i + size] for i in range(0, len(keys), size)]
        found = None
        for i in range(0, len(chunks), pool.n):
            if time.monotonic() > deadline:
                break
            sub = chunks[i:i + pool.n]
            cands = []
            for c in sub:
                drop = set(c)
                cands.append((
                    best["plan"],
                    {k: v for k, v in cur.items() if k not in drop},
                    best["seed"],
                ))
            jobs = [{"plan": p, "decisions": d, "seed": s, "wall": wall,
                     "want_rec": True} for p, d, s in cands]
            for cand, r in zip(cands, pool.map(jobs)):
                if r["sig"] == sig:
                    found = (cand[1], r)
                    break
            if found:
                break
        if found:
            cur, best = found
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(n * 2, len(keys))
    best["decisions"] = cur
    log(f"decisions minimised: {len(cur)}")
    return best


def _dkey(k):
    kind = k[0]
    tail = k.rsplit(":", 1)[-1] if ":" in k else k[1:]
    return (kind, int("".join(ch for ch in tail if ch.isdigit()) or 0), k)


def names_of(prop):
    """SHRINK key names of a scenario, read without importing it."""
    import ast

    path = os.path.join(HERE, "scen", prop.lower() + ".py")
    out = {"SHRINK": ["ops", "threads", "faults"], "RUNS": None}
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            name = getattr(node.targets[0], "id", "")
            if name.isupper():
                try:
                    out[name] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return out


# --------------------------------------------------------------------- check
def tree_id():
    repo = os.environ.get("VTELEM_REPO", "/repo")
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(repo, "vtelem")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".py", ".json", ".yaml", ".yml")):
                with open(os.path.join(base, f), "rb") as fd:
                    h.update(f.encode() + b"\0" + fd.read())
    return h.hexdigest()[:16]


def check(args):
    prop = args.prop
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = 1
    meta = names_of(prop)
    runs = args.runs or (meta.get("RUNS") or {}).get(tier) or (
        1200 if tier == "quick" else 20000
    )
    cap = args.seconds or (150 if tier == "quick" else 780)
    base = f"{vseed}/{prop}"
    findings = load_findings(prop)
    t0 = time.monotonic()
    pool = Pool(prop)
    stats = {
        "steps": 0, "switches": 0, "now": 0.0, "stalls": 0,
        "faults": {}, "probes": {}, "hashes": set(), "threads": 0,
        "nontrivial": set(), "samples": [],
    }
    known_hits = {}
    done = 0
    bad = None
    flaky = []
    retried = set()
    first = {}
    log = lambda s: print(f"# {prop}: {s}", flush=True)
    try:
        nxt = 0
        out = 0
        while True:
            while (
                bad is None and nxt < runs and out < pool.n * 3
                and time.monotonic() - t0 < cap
            ):
                pool.submit(base=base, index=nxt, tier=tier, wall=60)
                nxt += 1
                out += 1
            if out == 0:
                break
            res = pool.get()
            out -= 1
            job = res["job"]
            if res["status"] in ("hang", "died") and job["index"] not in retried:
                retried.add(job["index"])
                pool.submit(**{k: v for k, v in job.items() if k != "id"})
                out += 1
                continue
            done += 1
            stats["hashes"].add(res["hash"])
            if res["switches"] > 1 or res["faults"]:
                stats["nontrivial"].add(res["hash"])
            if len(stats["samples"]) < 3:
                stats["samples"].append({
                    "seed": res["seed"], "outcome": res["status"],
                    "steps": res["steps"], "switches": res["switches"],
                    "simulated_s": round(res["now"], 6),
                    "faults": res["faults"],
                })
            for k in ("steps", "switches", "now", "stalls", "threads"):
                stats[k] += res[k]
            for k in ("faults", "probes"):
                for name, n in res[k].items():
                    stats[k][name] = stats[k].get(name, 0) + n
            if job["index"] < 12:
                first[job["index"]] = res["hash"]
            if res["status"] == "ok":
                continue
            if res["status"] == "simerror":
                raise Fatal(f"run {job['index']}: {res['msg']}")
            hit = known(findings, res)
            if hit is not None:
                key = hit["id"]
                known_hits[key] = known_hits.get(key, 0) + 1
                continue
            if args.survey:
                stats.setdefault("survey", {}).setdefault(
                    res["sig"], []).append((job["index"], res["msg"]))
                continue
            if bad is None:
                ok = confirm(pool, res, out)
                out = 0 if ok is not None else out
                if ok is None:
                    flaky.append((job["index"], res["sig"], res["msg"][:300]))
                    if len(flaky) > 20:
                        break
                else:
                    bad = ok
                    break
        det = None
        if bad is None and not args.survey:
            det = determinism(prop, base, tier, first)
        search_s = time.monotonic() - t0
        if bad is not None:
            log(f"violation {bad['sig']}: {bad['msg'][:1500]}")
            found = dict(bad)
            bad = minimise(pool, bad, set(meta["SHRINK"]),
                           float(os.environ.get("DST_MIN_SECONDS", "40")), log)
    except Fatal as exc:
        pool.close()
        print(f"# {prop}: the check could not run: {exc}", flush=True)
        return 2
    pool.close()

    if args.survey:
        for sig, idx in sorted(stats.get("survey", {}).items()):
            print(f"{len(idx):5d} {sig}   e.g. {[i for i, _ in idx[:6]]}\n"
                  f"        {idx[0][1][:700]!r}")
    evidence(prop, tier, vseed, done, search_s, stats, known_hits, det, bad,
             flaky, meta)
    rate = done / max(search_s, 1e-9)
    log(f"{done} runs in {search_s:.1f}s ({rate:.0f}/s), "
        f"{len(stats['hashes'])} distinct schedules, "
        f"{stats['now']:.0f}s simulated, "
        f"{stats['steps']} steps, faults {sum(stats['faults'].values())}")
    if args.verbose:
        log(f"faults {stats['faults']}")
        log(f"probes {stats['probes']}")
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['text']} "
              f"(seen in {known_hits.get(k['id'], 0)} of {done} runs)")
    if bad is not None:
        if not reproduces(prop, bad):
            log("the minimised run is not repeatable, keeping the found one")
            bad = found
        path = write_replay(prop, bad)
        print(f"# {bad['sig']}: {bad['msg'][:2000]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if flaky:
        log(f"unreproducible outcomes: {flaky[:3]}")
        return 2
    if det is not None and det.get("mismatch"):
        log(f"warning: {det['mismatch']} runs were not repeatable")
    return 0


def confirm(pool, res, outstanding):
    """Replay from the recorded decisions; the same violation must appear."""
    for _ in range(outstanding):
        pool.get()
    if res["status"] in ("hang", "died"):
        res["rec"] = {}
        res["decisions"] = None
        return res
    jobs = [
        {"plan": res["plan"], "decisions": res["rec"], "seed": res["seed"],
         "want_rec": True},
        {"plan": res["plan"], "decisions": None, "seed": res["seed"],
         "want_rec": True},
    ]
    a, b = pool.map(jobs)
    if a["sig"] == res["sig"]:
        res["decisions"] = res["rec"]
        return res
    if b["sig"] == res["sig"]:
        res["decisions"] = None
        return res
    return None


def reproduces(prop, bad):
    """Check a replay in a fresh process, as the replay command runs it."""
    pool = Pool(prop, 1)
    try:
        got = pool.map([{
            "plan": bad["plan"], "decisions": bad.get("decisions"),
            "seed": bad["seed"], "want_rec": False, "wall": 60,
        }])[0]
        return got["sig"] == bad["sig"]
    finally:
        pool.close()


def determinism(prop, base, tier, first):
    """Repeat some runs in a fresh process with another hash seed."""
    if not first:
        return None
    pool = Pool(prop, 1)
    try:
        idx = sorted(first)
        got = pool.map([
            {"base": base, "index": i, "tier": tier, "wall": 60} for i in idx
        ])
        bad = [i for i, r in zip(idx, got) if r["hash"] != first[i]]
        return {"repeated": len(idx), "mismatch": len(bad), "which": bad}
    finally:
        pool.close()


def write_replay(prop, bad):
    out = os.path.join(EVID, "replays")
    os.makedirs(out, exist_ok=True)
    doc = {
        "property": prop, "sig": bad["sig"], "msg": bad["msg"],
        "seed": bad["seed"], "plan": bad["plan"],
        "decisions": bad.get("decisions"), "hash": bad["hash"],
        "tree": tree_id(),
    }
    data = json.dumps(doc, indent=1, sort_keys=True)
    name = f"{prop}-{hashlib.sha256(data.encode()).hexdigest()[:10]}.json"
    path = os.path.join(out, name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(data)
    return path


def evidence(prop, tier, vseed, done, secs, stats, known_hits, det, bad,
             flaky, meta):
    path = os.path.join(EVID, f"{prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    doc = {
        "property": prop, "tier": tier, "seed": vseed,
        "level": "exploration",
        "wall_s": round(secs, 2),
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(stats["nontrivial"]),
            "rule": "one case = one seeded simulated run (plan, schedule and "
            "faults drawn from the seed); distinct by the hash over all "
            "context switches and observed results, non-trivial if at least "
            "two threads were switched or a fault was injected",
            "samples": stats["samples"],
            "runs": done,
            "runs_per_hour": int(done / max(secs, 1e-9) * 3600),
            "seeds": done,
            "simulated_seconds": round(stats["now"], 3),
            "yield_points": stats["steps"],
            "context_switches": stats["switches"],
            "scheduler_stalls": stats["stalls"],
            "simulated_threads": stats["threads"],
            "distinct_interleavings": len(stats["hashes"]),
            "distinct_measure": "64-bit hash over every context switch "
            "(thread, step) and every observed result of a run",
            "faults_injected": stats["faults"],
            "probes": stats["probes"],
            "known_findings_seen": known_hits,
            "determinism_sample": det,
            "unreproducible": len(flaky),
            "real_components": meta.get("REAL", "all of vtelem reached by "
                                        "the scenario, CPython threading, "
                                        "queue, asyncio, socketserver, "
                                        "http, websockets"),
            "stubbed_components": meta.get(
                "STUB", "OS threads' scheduling, locks, clocks, sockets, "
                "selectors, file system calls, entropy"),
        },
        "violations": 0 if bad is None else 1,
        "assumptions": meta.get("ASSUMPTIONS", [
            "the simulated locks, sockets, clocks and files behave like "
            "those of CPython on Linux",
            "a bounded seeded sample of schedules and faults is explored",
        ]),
        "violation": None if bad is None else
        {"sig": bad["sig"], "msg": bad["msg"][:2000]},
        "tree": tree_id(),
    }
    with open(path, "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write("\n")


def replay(args):
    with open(args.file, encoding="utf-8") as f:
        doc = json.load(f)
    pool = Pool(doc["property"], 1)
    try:
        res = pool.map([{
            "plan": doc["plan"], "decisions": doc["decisions"],
            "seed": doc["seed"], "want_rec": True,
        }])[0]
    finally:
        pool.close()
    same = res["sig"] == doc["sig"]
    print(f"# {res['status']} {res['sig']}: {res['msg'][:3000]}")
    print(f"# hash {'equal' if res['hash'] == doc['hash'] else 'differs'}")
    if res["status"] == "ok":
        print("# no violation")
        return 0
    print(f"VIOLATION property={doc['property']} replay={args.file}"
          + ("" if same else " (different violation)"))
    return 1


def one(args):
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    pool = Pool(args.prop, 1)
    try:
        for i in range(args.index, args.index + args.count):
            t = time.monotonic()
            res = pool.map([{
                "base": f"{vseed}/{args.prop}", "index": i,
                "tier": args.tier or "quick", "want_plan": True, "wall": 60,
                "want_rec": True, "debug": True,
            }])[0]
            dt = time.monotonic() - t
            plan = res.pop("plan")
            rec = res.pop("rec", {})
            res.pop("job")
            if args.verbose:
                print(json.dumps(plan)[:4000])
                print(json.dumps(rec)[:1000])
            msg = res.pop("msg")
            print(i, f"{dt:.2f}s", json.dumps(res))
            if msg:
                print(msg[:6000])
        if args.verbose or res["status"] == "hang":
            print(pool.tail())
    finally:
        pool.close()
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--runs", type=int)
    c.add_argument("--seconds", type=float)
    c.add_argument("-v", "--verbose", action="store_true")
    c.add_argument("--survey", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("count", type=int, nargs="?", default=1)
    o.add_argument("--tier")
    o.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    try:
        return {"check": check, "replay": replay, "one": one}[args.cmd](args)
    except Fatal as exc:
        print(f"# fatal: {exc}")
        return 2


_ = importlib.util
if __name__ == "__main__":
    sys.exit(main())
