"""C15: commands from many callers, valid and ill-typed, executed in order."""

import json
import threading

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["threads", "steps", "cycles", "late"]
RUNS = {"quick": 2500, "thorough": 60000}
REAL = ("CommandQueueDaemon, QueueDaemon, channel, daemon and udp commanders, "
        "DaemonManager, UdpClientManager, TelemetryEnvironment")

# commands that can't succeed, whatever the state
ILL = [
    lambda o: None, lambda o: [], lambda o: 5, lambda o: "x", lambda o: {},
    lambda o: {"command": 5}, lambda o: {"command": None},
    lambda o: {"command": ["a"]}, lambda o: {"command": "nosuch"},
    lambda o: {"command": ""}, lambda o: ("command", "ok"),
    lambda o: {"command": {"a": 1}},
    lambda o: {"command": "channel"},
    lambda o: {"command": "channel", "data": 5},
    lambda o: {"command": "channel", "data": [1]},
    lambda o: chan(o, operation="set"),
    lambda o: chan(o, operation="get", channel_name="nosuch"),
    lambda o: chan(o, operation="get", channel_name=["a"]),
    lambda o: chan(o, operation="get", channel_name=None),
    lambda o: chan(o, operation=["get"], channel_name=o + ".u16"),
    lambda o: chan(o, operation="reset", channel_name=o + ".u16"),
    lambda o: chan(o, operation=None, channel_name=o + ".u16"),
    lambda o: chan(o, operation="set", channel_name=o + ".u16"),
    lambda o: chan(o, operation="set", channel_name=o + ".u16", value="a"),
    lambda o: chan(o, operation="set", channel_name=o + ".u16", value=None),
    lambda o: chan(o, operation="set", channel_name=o + ".u16", value=1.5),
    lambda o: chan(o, operation="set", channel_name=o + ".u16", value=-1),
    lambda o: chan(o, operation="set", channel_name=o + ".u16",
                   value=2 ** 16),
    lambda o: chan(o, operation="set", channel_name=o + ".u16",
                   value=10 ** 400),
    lambda o: chan(o, operation="set", channel_name=o + ".flt", value=1e39),
    lambda o: chan(o, operation="set", channel_name=o + ".flt", value={}),
    lambda o: chan(o, operation="set", channel_name=o + ".enum", value=1),
    lambda o: chan(o, operation="set", channel_name=o + ".enum", value="z"),
    lambda o: chan(o, operation="increment", channel_name=o + ".enum"),
    lambda o: chan(o, operation="decrement", channel_name=o + ".enum"),
    lambda o: chan(o, operation="increment", channel_name=o + ".u16",
                   value="a"),
    lambda o: chan(o, operation="increment", channel_name=o + ".u16",
                   value=None),
    lambda o: chan(o, operation="increment", channel_name=o + ".u16",
                   value=70000),
    lambda o: chan(o, operation="decrement", channel_name=o + ".u16",
                   value=[1]),
    lambda o: chan(o, operation="decrement", channel_name=o + ".u16",
                   value=65536),
    lambda o: chan(o, operation="set", channel_name=o + ".fixed", value=1),
    lambda o: chan(o, operation="increment", channel_name=o + ".fixed"),
    lambda o: chan(o, operation="get", channel_id=None),
    lambda o: chan(o, operation="get", channel_id=-1),
    lambda o: chan(o, operation="get", channel_id=10 ** 9),
    lambda o: chan(o, operation="get", channel_id=[1]),
    lambda o: chan(o, operation="get", channel_id=10 ** 9,
                   channel_name=o + ".u16"),
    lambda o: {"command": "daemon"},
    lambda o: dmn(operation=5), lambda o: dmn(operation=None),
    lambda o: dmn(operation="fly"),
    lambda o: dmn(operation="stop"),
    lambda o: dmn(operation="stop", daemons=5),
    lambda o: dmn(operation="stop", daemons={"worker": 1}),
    lambda o: dmn(operation="stop", daemons=["nosuch"]),
    lambda o: dmn(operation="stop", daemons=[["worker"]]),
    lambda o: {"command": "udp"},
    lambda o: udp(operation="nosuch"), lambda o: udp(operation=["list"]),
    lambda o: udp(operation="remove"),
    lambda o: udp(operation="remove", id=77),
    lambda o: udp(operation="remove", id=[1]),
    lambda o: udp(operation="list", id=77),
    lambda o: udp(operation="list", id="0"),
    lambda o: udp(operation="add"),
    lambda o: udp(operation="add", host="localhost"),
    lambda o: udp(operation="add", port=5),
    lambda o: udp(operation="add", host=5, port="x"),
    lambda o: udp(operation="add", host=None, port=None),
    lambda o: {"command": "help", "data": {"command": "nosuch"}},
    lambda o: {"command": "help", "data": {"command": ["a"]}},
    lambda o: {"command": "fail", "data": {(1, 2): 3}},
    lambda o: {"command": "fail", "data": circular()},
    lambda o: {"command": "fail", "data": {"x": object()}},
    lambda o: {"command": "broken", "data": None},
    lambda o: {"command": "raise", "data": "x"},
]


def circular():
    out = {}
    out["self"] = out
    return out


def chan(_o, **data):
    return {"command": "channel", "data": data}


def dmn(**data):
    return {"command": "daemon", "data": data}


def udp(**data):
    return {"command": "udp", "data": data}


OPS = ("set", "set", "inc", "inc", "dec", "get", "enum", "flt", "shared",
       "ill", "ill", "ill", "ok", "multi", "slow", "help", "worker", "read",
       "self", "help")


def gen(rng, tier):
    def op():
        kind = rng.choice(OPS)
        return [kind, rng.choice(("exec", "queue", "queue", "queue")),
                rng.randrange(len(ILL)) if kind == "ill"
                else rng.choice((0, 1, 7, 300, 65535)),
                rng.choice((None, None, None, "raise")),
                rng.choice((0, 0, 0, 0.01, 0.5))]

    cfg = sched_cfg(rng)
    return {
        "cfg": cfg,
        "threads": [[op() for _ in range(rng.randint(1, 8))]
                    for _ in range(rng.randint(1, 4))],
        "late": [rng.choice(("ok", "multi", "new", "new"))
                 for _ in range(rng.choice((0, 0, 1, 3, 8)))],
        "cycles": [[rng.choice((0, 0.01, 0.4)), rng.choice((0, 0.3, 5.0))]
                   for _ in range(rng.choice((0, 0, 1, 3)))],
        "metrics": rng.random() < 0.7,
        "maxsize": rng.choice((256, 256, 1, 3)),
        "slow": rng.choice((0.1, 1.0, 3.0)),
        "selfstop": rng.random() < 0.3,
    }


class HandlerError(Exception):
    """Raised by handlers and callbacks."""


def run(sim, plan):
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.classes.user_enum import user_enum
    from vtelem.daemon import DaemonBase
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.daemon_manager import (
        create_daemon_manager_commander,
    )
    from vtelem.factories.telemetry_environment import (
        create_channel_commander,
    )
    from vtelem.factories.udp_client_manager import (
        create_udp_client_commander,
    )
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    _ = DaemonBase
    env = TelemetryEnvironment(1500, init_time=1.0, metrics_rate=1.0,
                               app_id_basis=0.5)
    env.add_enum(user_enum("letters", {0: "a", 1: "b", 2: "c"}))
    daemon = CommandQueueDaemon("cmd", env if plan["metrics"] else None)
    daemon.queue.maxsize = plan["maxsize"]
    daemon_env = env
    manager = DaemonManager()
    worker = Daemon("worker", lambda *_, **__: None, 0.05, env=env)
    manager.add_daemon(worker)
    manager.add_daemon(daemon)
    writer, _q = default_writer("writer", env=env)
    clients = UdpClientManager(writer)
    create_channel_commander(env, daemon)
    create_daemon_manager_commander(manager, daemon)
    create_udp_client_commander(clients, daemon)

    shared = env.add_channel("shared", Primitive.INT64, 1.0)
    models = []
    for t in range(len(plan["threads"])):
        o = f"t{t}"
        env.add_channel(o + ".u16", Primitive.UINT16, 1.0)
        env.add_channel(o + ".flt", Primitive.FLOAT, 1.0)
        env.add_channel(o + ".fixed", Primitive.UINT16, 1.0,
                        commandable=False)
        env.add_enum_channel(o + ".enum", "letters", 1.0)
        models.append({"u16": 0, "flt": 0.0, "enum": "a"})
    shared_sum = [0]
    shared_late = []

    execs = []          # (command, token, handler index) in execution order
    depth = [0]

    def handler(command, index, outcome):
        def fn(data):
            check(threading.current_thread().name == "cmd", "wrong-thread",
                  threading.current_thread().name)
            check(depth[0] == 0, "overlap", "two commands at once")
            depth[0] += 1
            token = data["token"]
            execs.append((command, token, index))
            try:
                if command == "slow":
                    c.sleep(plan["slow"])
                else:
                    c.step()
                if outcome == "raise":
                    raise HandlerError()
                if outcome == "broken":
                    return "nonsense"
                return outcome == "ok", f"{command}:{index}:{token}"
            finally:
                depth[0] -= 1
        return fn

    reported = []

    def owner_cb(status, msg):
        reported.append((status, msg))

    regs = {"ok": ["ok"], "multi": ["ok", "fail", "ok"], "slow": ["ok"],
            "fail": ["fail"], "raise": ["raise"], "broken": ["broken"]}
    n_late = {}
    for name, outs in regs.items():
        for k, out in enumerate(outs):
            cb = None
            if name == "multi":
                cb = owner_cb if k != 1 else raising
            daemon.register_consumer(name, handler(name, k, out), cb, name)

    boot(daemon)
    stop_now = []
    issued = []         # [token, thread, kind, begin, end, callbacks, expect]
    stamp = [0]

    def tick():
        stamp[0] += 1
        return stamp[0]

    def caller(t, ops):
        o = f"t{t}"
        model = models[t]
        for k, (kind, how, arg, bad_cb, pause) in enumerate(ops):
            if pause:
                c.sleep(pause)
            token = f"{t}.{k}"
            before = dict(model)
            cmd, expect = build(kind, arg, o, model, token)
            if cmd is None:
                continue
            got = []
            rec = [token, t, kind, tick(), None, got, expect, how]

            def cb(status, msg, got=got, bad_cb=bad_cb, rec=rec):
                got.append((status, msg))
                rec.append(tick())
                if bad_cb == "raise":
                    raise HandlerError()

            if how == "exec":
                t0 = sim.now
                res = daemon.execute(cmd)
                rec[4] = tick()
                took = sim.now - t0
                check(isinstance(res, tuple) and len(res) == 2,
                      "bad-result", f"{res}")
                check(took < 60.0, "execute-slow", f"{took}")
                if res[0] is False and took >= 1.99:
                    # timed out: it may have been executed, or may never be
                    rec[5] = None
                    settle()
                    resync(o, model, before, kind, arg)
                else:
                    got.append(res)
            else:
                daemon.enqueue(cmd, cb)
                rec[4] = tick()
            issued.append(rec)

    def settle():
        c.wait_until(lambda: daemon.queue.unfinished_tasks == 0, limit=2000.0,
                     what="executed commands")

    def resync(o, model, before, kind, arg):
        for name in model:
            num = env.channel_registry.get_id(f"{o}.{name}")
            got = (env.get_enum_value(num) if name == "enum"
                   else env.get_value(num))
            check(got in (model[name], before[name]), "wrong-effect",
                  f"{o}.{name} {got} {model[name]} {before[name]}")
            model[name] = got
        if kind == "shared" and arg:
            shared_late.append(arg)
            shared_sum[0] -= arg

    def build(kind, arg, o, model, token):
        """The command, and the results it must give (None: any)."""
        def ch(op, name, **more):
            return {"command": "channel", "data": dict(
                operation=op, channel_name=name, token=token, **more)}

        if kind == "set":
            model["u16"] = arg
            return ch("set", o + ".u16", value=arg), [True]
        if kind in ("inc", "dec"):
            new = model["u16"] + (arg if kind == "inc" else -arg)
            ok = 0 <= new <= 65535
            model["u16"] = new if ok else model["u16"]
            op = "increment" if kind == "inc" else "decrement"
            return ch(op, o + ".u16", value=arg), [ok]
        if kind == "get":
            return ch("get", o + ".u16"), [(True, str(model["u16"]))]
        if kind == "enum":
            val = "abc"[arg % 3]
            if arg == 7:
                return ch("get", o + ".enum"), [(True, model["enum"])]
            model["enum"] = val
            return ch("set", o + ".enum", value=val), [True]
        if kind == "flt":
            model["flt"] = arg / 8
            return ch("set", o + ".flt", value=arg / 8), [True]
        if kind == "shared":
            shared_sum[0] += arg
            return ch("increment", "shared", value=arg), [True]
        if kind == "ill":
            return ILL[arg](o), [False] * (3 if False else 1)
        if kind == "help":
            return {"command": "help", "data": {
                "command": "ok" if arg else None}}, [True]
        if kind == "worker":
            return dmn(operation="start", daemons=["worker"]), [True]
        if kind == "read":
            return dmn(operation="states"), [True]
        if kind == "self":
            if not plan["selfstop"]:
                return None, None
            return dmn(operation="stop", daemons=["cmd"]), [True]
        return ({"command": kind, "data": {"token": token}},
                [(x == "ok", f"{kind}:{i}:{token}")
                 for i, x in enumerate(regs[kind])])

    def late():
        for k, name in enumerate(plan["late"]):
            c.step(20 if name != "new" else 1)
            idx = 100 + k
            name = f"new{k}" if name == "new" else name
            n_late.setdefault(name, []).append(idx)
            daemon.register_consumer(name, handler(name, idx, "ok"))

    def cycler():
        for wait, down in plan["cycles"]:
            c.sleep(wait)
            daemon.stop()
            c.sleep(down)

    def keeper():
        # whatever ended it, the command daemon is started again
        while not stop_now:
            if daemon.get_state_str() == "idle":
                daemon.start()
            c.sleep(0.1)

    crew = c.Crew()
    for t, ops in enumerate(plan["threads"]):
        crew.go(caller, t, ops, name=f"caller{t}")
    crew.go(late, name="late")
    crew.go(cycler, name="cycler")
    helper = c.Crew()
    helper.go(keeper, name="keeper")
    crew.join(limit=2000.0, what="callers")

    # every accepted command is executed
    settle()
    stop_now.append(1)
    helper.join(what="keeper")
    for d in (daemon, worker):
        for _ in range(10):
            if d.get_state_str() == "idle":
                break
            d.stop()
            c.poll(lambda d=d: d.get_state_str() == "idle", limit=5.0)
        check(d.get_state_str() == "idle", "not-stopped",
              f"{d.name} {d.get_state_str()}")
    sim.probe("commands", len(issued))
    # a command for a service that's stopped is answered nevertheless
    last = []
    crew = c.Crew()
    crew.go(lambda: last.append(daemon.execute({"command": "nosuch"})),
            name="last")
    crew.join(limit=60.0, what="a command for a stopped service")
    check(len(last) == 1 and last[0][0] is False, "wrong-result", f"{last}")
    verify(sim, plan, issued, execs, reported, n_late)

    for t, model in enumerate(models):
        chans = env.channel_registry
        for name, want in model.items():
            num = chans.get_id(f"t{t}.{name}")
            got = (env.get_enum_value(num) if name == "enum"
                   else env.get_value(num))
            check(got == want, "wrong-effect", f"t{t}.{name} {got} {want}")
        check(env.get_value(chans.get_id(f"t{t}.fixed")) == 0,
              "wrong-effect", "fixed")
    sums = {shared_sum[0]}
    for arg in shared_late:
        sums |= {x + arg for x in sums}
    check(env.get_value(shared) in sums, "wrong-effect",
          f"shared {env.get_value(shared)} {sums}")
    check(not clients.clients, "wrong-effect", f"udp {clients.clients}")
    if plan["metrics"]:
        counts(daemon_env, plan, issued, execs)


def raising(_status, _msg):
    raise HandlerError()


def boot(daemon):
    check(daemon.start() is True, "not-started", "")
    c.wait_until(lambda: daemon.get_state_str() == "running", step_s=1e-3,
                 what="running daemon")


def verify(sim, plan, issued, execs, reported, n_late):
    custom = ("ok", "multi", "slow")
    for rec in issued:
        token, t, kind, begin, end, got, expect, how = rec[:8]
        extra = {f"{kind}:{i}:{token}" for i in n_late.get(kind, [])}
        if got is None:
            continue
        if how == "exec":
            check(len(got) == 1, "bad-result", f"{token} {got}")
            want = expect[:1] if kind not in custom else expect
            check(any(same(got[0], w) for w in want), "wrong-result",
                  f"{token} {kind}: {got}, expected {expect}")
            continue
        base = [g for g in got if g[1] not in extra]
        check(len(base) == len(expect), "callback-count",
              f"{token} {kind} {rec[7]}: {got}, expected {expect}")
        for g, w in zip(base, expect):
            check(same(g, w), "wrong-result",
                  f"{token} {kind}: {got}, expected {expect}")
        for g in got:
            if g[1] in extra:
                check(g[0] is True, "wrong-result", f"{g}")
        check(len(set(got)) == len(got), "callback-count", f"{token} {got}")
    # custom handlers: once each, in order
    for rec in issued:
        token, _, kind = rec[:3]
        if kind in custom:
            n = {"multi": 3}.get(kind, 1)
            runs = [x[2] for x in execs if x[1] == token and x[2] < 100]
            check(runs == list(range(n)) or rec[5] is None and not runs,
                  "executed", f"{token} {kind} executed {runs}")
            more = [x[2] for x in execs if x[1] == token and x[2] >= 100]
            check(more == sorted(set(more)), "executed", f"{token} {more}")
    pos = {}
    for i, x in enumerate(execs):
        pos.setdefault(x[1], i)
    seq = [r for r in issued if r[2] in custom and r[5] is not None]
    for a in seq:
        for b in seq:
            if a[4] < b[3]:
                check(pos[a[0]] < pos[b[0]], "out-of-order",
                      f"{b[0]} before {a[0]}")
    # callbacks of commands that were accepted one after the other
    seq = [r for r in issued if r[7] == "queue"]
    for a in seq:
        for b in seq:
            if a[4] < b[3]:
                check(a[8] < b[8], "out-of-order",
                      f"result of {b[0]} before the one of {a[0]}")
    # the handler owner's callback
    want = []
    for x in execs:
        if x[0] == "multi" and x[2] in (0, 2):
            want.append((True, f"multi:{x[2]}:{x[1]}"))
    check(reported == want, "owner-callback", f"{reported} {want}")
    sim.note(len(execs))


def same(got, want):
    return got == want if isinstance(want, tuple) else got[0] is want


def counts(env, plan, issued, execs):
    def metric(name):
        return env.get_metric(f"cmd.{name}")

    lates = [r for r in issued if r[5] is None]
    issued = [r for r in issued if r[5] is not None]
    total = len(issued)
    check(total <= metric("command_count") <= total + len(lates),
          "wrong-count", f"{metric('command_count')} commands, not {total}")
    sums = (metric("success_count") + metric("failure_count")
            + metric("rejected_count"))
    late = sum(1 for x in execs if x[2] >= 100)
    want = sum(len(r[6]) for r in issued) + late
    more = sum(len(r[6]) for r in lates)
    check(want <= sums <= want + more, "wrong-count",
          f"{sums} results, not {want}")
    ok = late
    for r in issued:
        ok += sum(1 for w in r[6] if w is True or (
            isinstance(w, tuple) and w[0] is True))
    check(ok <= metric("success_count") <= ok + more, "wrong-count",
          f"{metric('success_count')} succeeded, not {ok}")
    _ = plan, json
