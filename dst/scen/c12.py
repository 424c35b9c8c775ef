"""C12: daemon life-cycle operations from many threads."""

from queue import Queue

from ..child import sched_cfg
from . import common as c
from . import wirefmt as w
from .common import check

SHRINK = ["threads", "daemons", "group"]
RUNS = {"quick": 2000, "thorough": 60000}
REAL = ("DaemonManager, DaemonBase, Daemon, QueueDaemon, TimeKeeper, "
        "TelemetryEnvironment metrics and events")

ERROR, IDLE, STARTING, RUNNING, PAUSED, STOPPING = range(6)
NAMES = ["error", "idle", "starting", "running", "paused", "stopping"]
LEGAL = {
    (ERROR, IDLE), (IDLE, STARTING), (STARTING, RUNNING), (STARTING, IDLE),
    (RUNNING, PAUSED), (PAUSED, RUNNING), (RUNNING, STOPPING),
    (PAUSED, STOPPING), (STARTING, STOPPING), (RUNNING, IDLE), (PAUSED, IDLE), (STOPPING, IDLE),
}
OPS = ("start", "start", "stop", "stop", "pause", "unpause", "restart")
JOIN = 2.0


def gen(rng, tier):
    n = rng.choice((1, 1, 2, 3))
    daemons = []
    for i in range(n):
        daemons.append({
            "kind": rng.choice(("tick", "tick", "queue", "short", "keeper")),
            "rate": rng.choice((0.02, 0.1, 0.1, 3.0)),
            "busy": rng.choice((0, 0, 0, 0.05, 1.0)),
            "deps": [f"d{rng.randrange(n)}"] if rng.random() < 0.3 else None,
            "fails": rng.choice((0, 0, 0, 0, 3)),
            "self": rng.choice((None,) * 6 + ("stop", "pause", "mstop",
                                              "mrestart")),
        })
    threads = []
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(1, 7)):
            ops.append([
                rng.choice(("direct", "direct", "perform", "manager",
                            "managerstr", "all", "strall", "put", "states")),
                rng.choice(OPS), rng.randrange(n),
                rng.choice((0, 0, 0, 0.001, 0.03, 0.5)),
            ])
        threads.append(ops)
    m = rng.choice((0, 3, 6, 12, 30)) if rng.random() < 0.5 else 0
    group = []
    shape = rng.choice(("any", "any", "chain", "rchain", "cycle", "star"))
    for i in range(m):
        if shape == "chain":
            deps = [i - 1] if i else []
        elif shape == "rchain":
            deps = [i + 1] if i + 1 < m else []
        elif shape == "cycle":
            deps = [(i + 1) % m]
        elif shape == "star":
            deps = [0] if i else []
        else:
            deps = [rng.randrange(m + 1) for _ in range(rng.choice(
                (0, 0, 1, 2)))]
        group.append(deps)
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    return {"cfg": cfg, "daemons": daemons, "threads": threads,
            "group": group, "nothread": rng.choice((0, 0, 0, 0.2)),
            "keeper": rng.random() < 0.5}


class Rec:
    """What is known about one daemon."""

    def __init__(self, name):
        self.name = name
        self.trans = []   # (seq, old, new)
        self.active = []  # current runs
        self.runs = []
        self.ops = []
        self.busy = 0
        self.handled = []
        self.fed = []
        self.selfops = 0
        self.nothread = 0


SEQ = [0]
ALL = []


def tick():
    SEQ[0] += 1
    return SEQ[0]


def watch(cls, rec_of):
    """A subclass whose state changes and runs are recorded."""

    class Watched(cls):
        @property
        def state(self):
            return self.__dict__.get("w_state", ERROR)

        @state.setter
        def state(self, value):
            old = self.__dict__.get("w_state")
            self.__dict__["w_state"] = value
            if old is not None and old != value:
                rec = rec_of(self)
                rec.trans.append((tick(), int(old), int(value)))
                check((int(old), int(value)) in LEGAL, "illegal-transition",
                      f"{self.name}: {NAMES[old]} -> {NAMES[value]}")

        def run(self, *args, **kwargs):
            rec = rec_of(self)
            me = {"start": tick(), "end": None}
            check(not rec.active, "two-workers",
                  f"{self.name}: a run began while another was in progress")
            rec.active.append(me)
            rec.runs.append(me)
            try:
                super().run(*args, **kwargs)
            finally:
                rec.active.remove(me)
                me["end"] = tick()

    Watched.__name__ = cls.__name__
    return Watched


class Boom(Exception):
    """A task that fails."""


def allow_uncaught(sim, name, exc):
    return isinstance(exc, Boom)


def run(sim, plan):
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon import DaemonBase, DaemonOperation
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.daemon.synchronous import Daemon
    from vtelem.telemetry.environment import TelemetryEnvironment

    SEQ[0] = 0
    ALL.clear()
    recs = {}

    def rec_of(daemon):
        name = daemon.name
        if name not in recs:
            recs[name] = Rec(name)
        return recs[name]

    env = TelemetryEnvironment(1500, metrics_rate=1.0, app_id_basis=0.5)
    keeper = TimeKeeper("keeper", 0.05) if plan["keeper"] else None
    manager = DaemonManager()

    class Short(DaemonBase):
        """Its work ends on its own."""

        def run(self, *_, **__):
            c.sleep(0.02)

    built = []
    for i, spec in enumerate(plan["daemons"]):
        name = f"d{i}"
        rec = recs[name] = Rec(name)

        def task(*_, rec=rec, spec=spec, i=i, **__):
            rec.busy += 1
            check(rec.busy == 1, "overlap", rec.name)
            try:
                check(len(rec.active) == 1, "task-without-run", rec.name)
                if spec["busy"]:
                    c.sleep(spec["busy"])
                rec.handled.append(tick())
                if spec["self"] and len(rec.handled) % 5 == 3:
                    rec.selfops += 1
                    me = built[i]
                    if spec["self"] == "stop":
                        me.stop()
                    elif spec["self"] == "pause":
                        me.pause()
                    elif spec["self"] == "mstop":
                        manager.perform(rec.name, DaemonOperation.STOP)
                    else:
                        manager.perform(rec.name, DaemonOperation.RESTART)
                if spec["fails"] and len(rec.handled) % spec["fails"] == 0:
                    raise Boom()
            finally:
                rec.busy -= 1

        if spec["kind"] == "queue":
            def handle(elem, rec=rec, spec=spec):
                rec.busy += 1
                check(rec.busy == 1, "overlap", rec.name)
                if spec["busy"]:
                    c.sleep(spec["busy"])
                rec.busy -= 1
                rec.handled.append(elem)
            daemon = watch(QueueDaemon, rec_of)(name, Queue(), handle, env,
                                                keeper)
        elif spec["kind"] == "short":
            daemon = watch(Short, rec_of)(name, env, keeper)
        elif spec["kind"] == "keeper":
            daemon = watch(TimeKeeper, rec_of)(name, spec["rate"])
        else:
            daemon = watch(Daemon, rec_of)(name, task, spec["rate"],
                                           env=env, time_keeper=keeper)
        built.append(daemon)
        check(manager.add_daemon(daemon, spec["deps"]), "not-added", name)
        check(manager.add_daemon(daemon) is False, "added-twice", name)

    if plan["nothread"]:
        names = {d.name for d in built}

        def fault(thread):
            if getattr(thread, "name", None) in names and sim.chance(
                    "nothread", plan["nothread"]):
                sim.fault("no_thread")
                recs[thread.name].nothread += 1
                return True
            return False

        sim.thread_fault = fault

    frames = []
    done = []

    def drain():
        while True:
            last = bool(done)
            env.dispatch_events(env.get_time())
            while not env.frame_queue.empty():
                frames.append(env.get_next_frame())
            if last:
                return
            c.sleep(1.0)

    def operate(n, ops):
        for how, oper, idx, pause in ops:
            daemon = built[idx % len(built)]
            rec = recs[daemon.name]
            if how == "put":
                if isinstance(daemon, QueueDaemon):
                    elem = tick()
                    rec.fed.append(elem)
                    daemon.queue.put(elem)
                continue
            if how == "states":
                states = manager.states()
                check(sorted(states) == sorted(d.name for d in built)
                      and all(v in NAMES for v in states.values()),
                      "bad-states", f"{states}")
                continue
            if how in ("all", "strall") and oper != "restart":
                t0 = sim.now
                one = {"call": tick(), "ret": 1 << 60}
                ALL.append(one)
                if how == "all":
                    res = manager.perform_all(DaemonOperation[oper.upper()])
                else:
                    res = manager.perform_str_all(oper)
                one["ret"] = tick()
                check(res in (True, False), "bad-result", f"{res}")
                bounded(sim, t0, len(built), f"{oper} all")
                continue
            op = {"how": how, "op": oper, "call": tick(), "t0": sim.now}
            open_runs = list(rec.active)
            if how in ("all", "strall"):
                op["how"] = how = "perform"
            if how == "direct":
                res = getattr(daemon, oper)()
            elif how == "perform":
                res = daemon.perform(DaemonOperation[oper.upper()])
            elif how == "manager":
                res = manager.perform(daemon.name,
                                      DaemonOperation[oper.upper()])
            else:
                res = manager.perform_str(daemon.name, oper)
            op["ret"] = tick()
            op["res"] = res
            op["took"] = sim.now - op["t0"]
            rec.ops.append(op)
            bounded(sim, op["t0"], len(built), f"{oper} {daemon.name}")
            if oper in ("stop", "restart") and res and how == "direct":
                for one in open_runs:
                    check(one["end"] is not None, "stopped-but-running",
                          f"{daemon.name}: {oper} succeeded, its worker is "
                          "still running")
            if pause:
                c.sleep(pause)

    drainer = c.Crew()
    drainer.go(drain, name="drain")
    if keeper is not None:
        check(keeper.start(), "keeper", "")
    crew = c.Crew()
    for n, ops in enumerate(plan["threads"]):
        crew.go(operate, n, ops, name=f"op{n}")
    crew.join(what="life-cycle requests")
    sim.thread_fault = None

    # at rest everything can be stopped, and started again
    for daemon in built:
        rec = recs[daemon.name]
        c.wait_until(lambda: daemon.get_state() not in (STARTING, STOPPING),
                     limit=60.0, what=f"{daemon.name} at rest")
        if rec.selfops or len(plan["threads"]) == 0:
            pass
        stop_it(daemon, rec)
        fed = list(rec.fed)
        for _ in range(2):
            if plan["daemons"][int(daemon.name[1:])]["fails"]:
                break
            check(daemon.start() is True, "not-restartable",
                  f"{daemon.name} in state {daemon.get_state_str()}")
            runs = len(rec.runs)
            c.wait_until(lambda: daemon.get_state() != STARTING,
                         what=f"{daemon.name} running")
            c.wait_until(lambda: len(rec.runs) == starts(rec),
                         what=f"{daemon.name}: {runs} runs of {starts(rec)}")
            stop_it(daemon, rec)
        if isinstance(daemon, QueueDaemon):
            check(rec.handled == fed[:len(rec.handled)], "queue-order",
                  f"{fed} handled {rec.handled}")
    if keeper is not None:
        stop_plain(keeper)
    done.append(1)
    drainer.join(what="drain")
    published = states_from(env, frames)
    for daemon in built:
        evaluate(sim, daemon, recs[daemon.name], published, env)
    if plan["group"]:
        groups(sim, plan["group"], watch, rec_of, recs)


def bounded(sim, t0, count, what):
    limit = 120.0 + 30.0 * count
    check(sim.now - t0 < limit, "slow-operation",
          f"{what} took {sim.now - t0:.1f} s")


def starts(rec):
    return sum(1 for t in rec.trans if t[2] == RUNNING and t[1] == STARTING)


def stop_plain(daemon):
    for _ in range(20):
        if daemon.stop():
            return
        c.sleep(1.0)
    check(False, "not-stopped", daemon.name)


def stop_it(daemon, rec):
    """Stop until idle: a stalled or busy worker may outlast one stop."""
    end = c.now() + 60.0 + 2.0 * len(rec.fed)
    while c.now() < end:
        if daemon.get_state() == IDLE and not rec.active:
            break
        t0 = c.now()
        call = tick()
        res = daemon.stop()
        rec.ops.append({"how": "direct", "op": "stop", "call": call,
                        "ret": tick(), "res": res, "took": c.now() - t0,
                        "t0": t0})
        if res and not rec.selfops:
            check(not rec.active, "stopped-but-running", daemon.name)
        c.sleep(0.05)
    check(daemon.get_state() == IDLE and not rec.active, "not-stopped",
          f"{daemon.name}: {daemon.get_state_str()}\n{c.sim().stacks()}")


def states_from(env, frames):
    """Published state changes by channel identifier."""
    types = {i: env.channel_registry.get_item(i).type.name
             for i in range(env.channel_registry.count())}
    out = {}
    for frame in frames:
        got = w.decode(c.wire(frame), types, True)
        if got.type == w.EVENT:
            for ident, prev, curr in got.items:
                out.setdefault(ident, []).append((prev[0], curr[0]))
    return out


def within(rec, op):
    """States held at some time during an operation, and its transitions."""
    state = IDLE
    held = set()
    trans = []
    for seq, old, new in rec.trans:
        if seq <= op["call"]:
            state = new
            continue
        if seq > op["ret"]:
            break
        if not trans:
            held.add(old)
        held.add(new)
        trans.append((old, new))
    if not trans:
        held.add(state)
    return held, trans


def has(trans, *new):
    """Do the transitions contain these target states in order?"""
    it = iter(t[1] for t in trans)
    return all(any(n == x for x in it) for n in new)


def evaluate(sim, daemon, rec, published, env):
    name = daemon.name
    trans = [(a, b) for _, a, b in rec.trans]
    if trans and trans[0][0] == ERROR:
        trans = trans[1:]
        rec.trans = rec.trans[1:]
    for a, b in zip(trans, trans[1:]):
        check(a[1] == b[0], "broken-chain", f"{name}: {trans}")
    count = {}
    for pair in trans:
        count[pair] = count.get(pair, 0) + 1
        sim.probe(f"{NAMES[pair[0]]}-{NAMES[pair[1]]}")
    started = count.get((IDLE, STARTING), 0)
    to_stop = sum(n for p, n in count.items() if p[1] == STOPPING)
    failed = rec.nothread
    # (a worker that is stopped before it begins doesn't run)
    early = count.get((STARTING, STOPPING), 0)
    check(len(rec.runs) == started - failed - early, "lost-run",
          f"{name}: {started} starts, {len(rec.runs)} runs")
    seen = {"starts": started, "pauses": count.get((RUNNING, PAUSED), 0),
            "unpauses": count.get((PAUSED, RUNNING), 0)}
    data = daemon.function["metrics_data"]
    for key, want in seen.items():
        check(data[key] == want, "wrong-counter",
              f"{name}.{key} is {data[key]}, counted {want}: {trans}")
    ended = data["stops"] + data["errors"] - failed
    check(ended == to_stop, "wrong-counter",
          f"{name}: {data['stops']} stops + {data['errors']} errors for "
          f"{to_stop} stop requests ({failed} failed starts)")
    if started:
        last_failed = trans and trans[-1] == (STARTING, IDLE)
        check(data["count"] == (0 if last_failed else 1), "wrong-counter",
              f"{name}.count is {data['count']}")
    if daemon.env is not None:
        for key in ("starts", "pauses", "unpauses", "stops", "errors",
                    "count"):
            check(env.get_metric(f"{name}.{key}") == data[key],
                  "wrong-metric", f"{name}.{key}")
        check(env.get_enum_metric(f"{name}.state") == "idle", "wrong-metric",
              f"{name}.state: {env.get_enum_metric(name + '.state')}")
        ident = env.metrics[f"{name}.state"]
        got = [p for p in published.get(ident, [])]
        if got and got[0][0] == ERROR:
            got = got[1:]
        check(got == trans, "wrong-events",
              f"{name}: published {got}, took place {trans}")
    okay = {"stop": 0}
    for op in rec.ops:
        held, tr = within(rec, op)
        what = (f"{name}: {op['how']} {op['op']} returned {op['res']} in "
                f"{op['took']:.3f} s, states {sorted(held)} via {tr}")
        direct = op["how"] == "direct"
        kind, res = op["op"], op["res"]
        check(res is True or res is False, "bad-result", what)
        if kind == "start":
            if res:
                fine = has(tr, STARTING) or (
                    not direct and held & {STARTING, RUNNING})
            else:
                fine = held - {IDLE} or failed
        elif kind == "stop":
            if res:
                fine = has(tr, STOPPING, IDLE) or has(tr, STOPPING) and \
                    rec.selfops or (
                    not direct and held & {STOPPING, IDLE})
                okay["stop"] += 1
            else:
                # nothing to stop, or the worker did not end in time
                fine = held & {IDLE, STOPPING} and (
                    not has(tr, STOPPING) or len(tr) and (
                        op["took"] >= JOIN * 0.99 or others(rec, op)))
        elif kind == "pause":
            if res:
                fine = has(tr, PAUSED) or (not direct and PAUSED in held)
            else:
                fine = held - {RUNNING}
        elif kind == "unpause":
            if res:
                fine = (PAUSED, RUNNING) in tr or (
                    not direct and held & {IDLE, RUNNING})
            else:
                fine = held - {PAUSED}
        else:
            if res:
                fine = has(tr, STOPPING, IDLE, STARTING)
            else:
                fine = held & {IDLE, STOPPING}
        check(fine, "wrong-result", what)


def others(rec, op):
    """Did another operation overlap this one?"""
    return True if rec.selfops else any(
        o is not op and o["call"] < op["ret"] and o["ret"] > op["call"]
        for o in rec.ops + ALL)


def groups(sim, spec, watcher, rec_of, recs):
    """Requests to a whole group respect the order of dependencies."""
    from vtelem.daemon import DaemonBase, DaemonOperation
    from vtelem.daemon.manager import DaemonManager

    gates = {}

    class Light(DaemonBase):
        """Runs until it is told to stop."""

        def __init__(self, name):
            super().__init__(name)
            self.function["inject_stop"] = lambda: None

        def run(self, *_, **__):
            while self.get_state() != STOPPING:
                c.sleep(0.2)

    manager = DaemonManager()
    cls = watcher(Light, rec_of)
    members = {}
    for i, deps in enumerate(spec):
        daemon = cls(f"g{i}")
        members[daemon.name] = daemon
        manager.add_daemon(daemon, [f"g{d}" for d in deps] if deps else None)
    unknown = any(d >= len(spec) for deps in spec for d in deps)
    _ = gates
    graph = {f"g{i}": [f"g{d}" for d in deps if d < len(spec)]
             for i, deps in enumerate(spec)}
    before = {n: reach(graph, n) for n in graph}
    for oper, target in (("START", STARTING), ("PAUSE", PAUSED),
                         ("UNPAUSE", RUNNING), ("STOP", STOPPING),
                         ("START", STARTING), ("STOP", STOPPING)):
        mark = tick()
        res = manager.perform_all(DaemonOperation[oper])
        order = sorted(
            (seq, n) for n in members for seq, old, new in recs[n].trans
            if seq > mark and new == target
            and (oper != "UNPAUSE" or old == PAUSED))
        pos = {}
        for k, (_, n) in enumerate(order):
            check(n not in pos, "performed-twice", f"{oper} {n}")
            pos[n] = k
        check(len(pos) == len(members), "not-performed",
              f"{oper}: {sorted(set(members) - set(pos))}")
        check(res is (not unknown), "group-result",
              f"{oper} returned {res}, unknown dependencies: {unknown}")
        for n, deps in graph.items():
            for dep in deps:
                if n in before[dep]:
                    continue  # a circular dependency has no order
                check(pos[dep] < pos[n], "dependency-order",
                      f"{oper}: {n} before its dependency {dep}")
        for daemon in members.values():
            c.wait_until(lambda: daemon.get_state() not in (
                STARTING, STOPPING), what=daemon.name)
    sim.probe("groups")


def reach(graph, node):
    """Everything node depends on."""
    seen = set()
    todo = list(graph[node])
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += graph[n]
    return seen
