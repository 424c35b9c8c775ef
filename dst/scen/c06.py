"""C06: rejected or failing operations block and corrupt nothing."""

from enum import IntEnum
from io import BytesIO

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["threads"]
RUNS = {"quick": 1500, "thorough": 60000}
REAL = ("TelemetryEnvironment, registries, ChannelGroup(Registry), Daemon, "
        "DaemonManager, CommandQueueDaemon, StreamWriter, StateMachine, "
        "TimeKeeper, UserEnum")
BAD = (
    "dup_channel", "bad_initial", "enum_unknown", "enum_bad_initial",
    "enum_dup_chan", "enum_prim", "enum_dup", "group_unknown", "group_enum",
    "group_body", "group_dup", "group_addenum", "create_group", "cmd_unknown",
    "cmd_locked", "cmd_badid", "cmd_badval", "set_bad", "set_badid",
    "enum_now", "enum_cmd", "get_str", "daemon_wrong", "mgr_dup",
    "mgr_unknown", "mgr_op", "mgr_deny", "metric_bad", "metric_enum_bad",
    "scale", "rate", "machine_bad", "machine_raise", "machine_enter",
    "writer_unknown", "queue_unknown", "cmdq_bad", "cmdq_raise",
    "task_raise", "init_raise", "state_cb", "enum_def", "data_raise",
    "stream_ctx", "reg_dup", "service_dup", "paused_ctx", "booted_ctx",
)
GOOD = ("add", "set", "group", "gread", "dispatch", "enum", "daemon", "cmdq",
        "machine", "states", "metric", "describe")


class Boom(Exception):
    """Raised by user callbacks."""


def allow_uncaught(sim, name, exc):
    return isinstance(exc, Boom)


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops.append([rng.choice(BAD), rng.randrange(4),
                        rng.choice((0, 0, 1e-4, 3e-3))])
            if rng.random() < 0.4:
                ops.append([rng.choice(GOOD), rng.randrange(4), 0])
        threads.append(ops)
    for _ in range(rng.choice((0, 1, 2))):
        threads.append([[rng.choice(GOOD), rng.randrange(4),
                         rng.choice((0, 0, 1e-4))]
                        for _ in range(rng.randint(1, 8))])
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    return {"cfg": cfg, "threads": threads,
            "watch": rng.random() < 0.5}


def rejected(fn, *args, what="", **kwargs):
    """The operation must fail, by result or by AssertionError/KeyError."""
    try:
        out = fn(*args, **kwargs)
    except (AssertionError, KeyError, ValueError):
        return
    check(out is False or out is None or (isinstance(out, tuple)
                                          and out[0] is False),
          "accepted", f"{what}: returned {out!r}")


def run(sim, plan):
    from vtelem.channel.group_registry import ChannelGroupRegistry
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.classes.user_enum import from_enum, user_enum
    from vtelem.daemon import DaemonOperation as Op, DaemonState
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.primitive import Primitive
    from vtelem.registry.service import ServiceRegistry
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(500, metrics_rate=1.0, app_id_basis=0.25)
    Color = IntEnum("Color", {"red": 1, "green": 2, "blue": 7})
    env.add_from_enum(Color)
    groups = ChannelGroupRegistry(env)
    gid = groups.create_group("grp")
    for name in ("a", "b", "d"):
        groups.add_channel(gid, name, Primitive.INT32, 1.0)
    groups.add_enum_channel(gid, "col", "color", 1.0)
    group = groups.get_item(gid)
    fixed = env.add_channel("fixed", Primitive.UINT8, 1.0, True, (7, 0.0))
    locked = env.add_channel("locked", Primitive.UINT8, 1.0, False, (9, 0.0),
                             commandable=False)
    ecol = env.add_enum_channel("ecol", "color", 1.0, True, ("green", 0.0))
    keeper = TimeKeeper("time", 0.02)
    keeper.add_slave(env)
    manager = DaemonManager()
    services = ServiceRegistry()
    services.add("svc", [("localhost", 1)])
    ticks = [0]
    flags = {"task": 0, "init": 0, "state": 0}

    def task(*_, **__):
        ticks[0] += 1
        if flags["task"]:
            flags["task"] = 0
            raise Boom("task")

    def init(*_, **__):
        if flags["init"]:
            flags["init"] = 0
            raise Boom("init")

    periodic = Daemon("per", task, 0.02, env=env, time_keeper=keeper,
                      init=init)
    default_cb = periodic.function["state_change"]

    def state_cb(*args):
        default_cb(*args)
        if flags["state"]:
            flags["state"] = 0
            raise Boom("state")

    periodic.function["state_change"] = state_cb
    fragile = Daemon("fragile", task, 0.005, env=env)
    cmdq = CommandQueueDaemon("cmd", env)
    cmdq.register_consumer("ok", lambda d: (True, f"got {d['v']}"))

    def boom(data):
        raise Boom("handler")

    cmdq.register_consumer("boom", boom)
    writer, wqueue = default_writer("writer", env=env,
                                    queue=env.frame_queue)
    sink = BytesIO()
    writer.add_stream(sink)
    for d in (keeper, periodic, cmdq, writer):
        check(manager.add_daemon(d), "add-daemon", d.name)
        check(d.start(), "start-failed", d.name)
    manager.add_daemon(fragile)

    mode = {"raise": 0, "veto": 0}

    def runner(name):
        def inner(data):
            if mode["raise"]:
                mode["raise"] = 0
                raise Boom("state")
            return name
        return inner

    states = [State("s0", runner("s1"), env=env),
              State("s1", runner("s0"), env=env,
                    entering=lambda p, d: not mode.pop("veto", 0))]
    machine = StateMachine("mach", states, env=env)
    iters = [0]

    model = {"chan": 0, "enum": 0, "dispatch": 0, "groups": 1, "machine": 0}
    base_chan = env.channel_registry.count()
    base_enum = env.enum_registry.count()
    base_type = env.type_registry.count()
    ghosts = ("ghost", "ghost_enum", "grp.ghost", "ghost_metric", "uint8x")
    base_state = machine.current_state

    def no_ghosts():
        for name in ghosts:
            check(env.channel_registry.get_id(name) is None, "partial-effect",
                  f"rejected channel {name} is registered")
            check(not env.has_metric(name), "partial-effect",
                  f"rejected metric {name}")
        check("ghost" not in group.channels, "partial-effect", "group channel")
        check(manager.get("ghost") is None, "partial-effect", "daemon")
        check(env.enum_registry.get_id("uint8") is None, "partial-effect",
              "rejected enum uint8 registered")
        check(groups.get_id("ghost") is None, "partial-effect", "group")

    def values():
        vals = group.read()
        return vals

    uniq = iter(range(1, 100000))
    cmd_seen = []

    def bad(kind, num):
        if kind == "dup_channel":
            before = env.get_value(fixed)
            rejected(env.add_channel, "fixed", Primitive.INT32, 1.0,
                     bool(num & 1), (1, 0.0), what=kind)
            check(env.channel_registry.get_id("fixed") == fixed and
                  env.channel_registry.get_item(fixed).type
                  == Primitive.UINT8, "partial-effect", "fixed replaced")
            del before
        elif kind == "bad_initial":
            rejected(env.add_channel, "ghost", Primitive.UINT8, 1.0, True,
                     ((300, -1, 256, 1000)[num], 0.0), what=kind)
        elif kind == "enum_unknown":
            rejected(env.add_enum_channel, "ghost_enum", "nope", 1.0, True,
                     None if num & 1 else ("red", 0.0), what=kind)
        elif kind == "enum_bad_initial":
            rejected(env.add_enum_channel, "ghost_enum", "color", 1.0, True,
                     ("purple", 0.0), what=kind)
        elif kind == "enum_dup_chan":
            rejected(env.add_enum_channel, "fixed", "color", 1.0, True,
                     ("red", 0.0), what=kind)
            check(not env.is_enum_channel(fixed), "partial-effect",
                  "fixed became an enum channel")
        elif kind == "enum_prim":
            rejected(env.add_enum, user_enum("uint8", {0: "a", 1: "b"}),
                     what=kind)
        elif kind == "enum_dup":
            # registering it again returns the existing identifier
            check(env.add_enum(user_enum("color", {3: "zz"}))
                  == env.enum_registry.get_id("color"), "partial-effect",
                  "color replaced")
        elif kind == "enum_def":
            try:
                user_enum("bad", {} if num & 1 else
                          {i: f"e{i}" for i in range(257)})
                check(False, "accepted", "invalid enum definition")
            except AssertionError:
                pass
        elif kind in ("group_unknown", "group_enum"):
            with env.lock:
                vals = values()
                new = {k: (v + 1 if isinstance(v, int) else v)
                       for k, v in vals.items()}
                if kind == "group_unknown":
                    new = {"a": new["a"], "ghost": 1, "b": new["b"]}
                else:
                    new["col"] = "purple"
                rejected_raise(lambda: group.write(new), kind)
                check(values() == vals, "partial-effect",
                      f"{kind}: {vals} became {values()}")
        elif kind == "group_body":
            try:
                with groups.group(gid) as data:
                    data["d"] += 0
                    raise Boom("body")
            except Boom:
                pass
        elif kind == "group_dup":
            before = dict(group.channels["a"])
            check(group.add_channel("a", Primitive.UINT8, 1.0) is False,
                  "accepted", kind)
            check(group.channels["a"] == before, "partial-effect", kind)
        elif kind == "group_addenum":
            check(group.add_enum_channel("ghost", "nope", 1.0) is False,
                  "accepted", kind)
            before = dict(group.channels["a"])
            check(group.add_enum_channel("a", "color", 1.0) is False,
                  "accepted", kind)
            check(group.channels["a"] == before, "partial-effect", kind)
        elif kind == "create_group":
            rejected(groups.create_group, "grp", what=kind)
            check(groups.get_item(gid) is group, "partial-effect", kind)
        elif kind == "cmd_unknown":
            check(env.command_channel("ghost", 1) is False, "accepted", kind)
            check(env.command_enum_channel("ghost", "red") is False,
                  "accepted", kind)
        elif kind == "cmd_locked":
            check(env.command_channel("locked", 1) is False, "accepted", kind)
            check(env.command_channel_id(locked, 1) is False, "accepted",
                  kind)
            check(env.get_value(locked) == 9, "partial-effect", kind)
        elif kind == "cmd_badid":
            rejected_raise(lambda: env.command_channel_id(99999, 1), kind)
            rejected_raise(lambda: env.command_enum_channel_id(fixed, "red"),
                           kind)
        elif kind == "cmd_badval":
            check(env.command_channel("locked", 300) is False, "accepted",
                  kind)
            check(env.command_channel("ecol", 300) is False, "accepted", kind)
            rejected_raise(lambda: env.command_enum_channel("ecol", "zz"),
                           kind)
        elif kind == "set_bad":
            check(env.set_now(locked, 256) is False, "accepted", kind)
            check(env.set_now(locked, -1) is False, "accepted", kind)
            check(env.get_value(locked) == 9, "partial-effect", kind)
        elif kind == "set_badid":
            rejected_raise(lambda: env.set_now(99999, 1), kind)
            rejected_raise(lambda: env.get_value(99999), kind)
            rejected_raise(lambda: env.set_channel_rate(99999, 1.0), kind)
        elif kind == "enum_now":
            rejected_raise(lambda: env.set_enum_now(ecol, "purple"), kind)
            rejected_raise(lambda: env.set_enum_now(fixed, "red"), kind)
        elif kind == "enum_cmd":
            rejected_raise(lambda: env.command_enum_channel("fixed", "red"),
                           kind)
        elif kind == "get_str":
            enum = env.enum_registry.get_item(
                env.enum_registry.get_id("color"))
            before = set(enum)
            check(enum.get_str(55) == "unknown", "accepted", kind)
            rejected_raise(lambda: enum.get_value("purple"), kind)
            check(set(enum) == before == {"red", "green", "blue"},
                  "partial-effect", f"{kind}: {set(enum)}")
        elif kind == "daemon_wrong":
            check(fragile_ops(num) is False, "accepted", kind)
        elif kind == "mgr_dup":
            other = QueueDaemon("per", None, None)
            check(manager.add_daemon(other) is False, "accepted", kind)
            check(manager.get("per") is periodic, "partial-effect", kind)
        elif kind == "mgr_unknown":
            check(manager.get("ghost") is None, "accepted", kind)
            check(manager.perform("ghost", Op.START) is False, "accepted",
                  kind)
            check(manager.perform_str("ghost", "start") is False, "accepted",
                  kind)
        elif kind == "mgr_op":
            check(manager.perform_str("per", "explode") is False, "accepted",
                  kind)
            check(manager.perform_str_all("explode") is False, "accepted",
                  kind)
        elif kind == "mgr_deny":
            rejected_raise(lambda: manager.get("all"), kind)
            rejected_raise(
                lambda: manager.add_daemon(QueueDaemon("all", None, None)),
                kind)
        elif kind == "metric_bad":
            rejected_raise(lambda: env.set_metric("channel_count", -1), kind)
            rejected_raise(lambda: env.metric_add("channel_count", -(1 << 40)),
                           kind)
            rejected_raise(
                lambda: env.add_metric("ghost_metric", Primitive.UINT8, True,
                                       (300, None)), kind)
            rejected_raise(lambda: env.get_metric("ghost_metric"), kind)
        elif kind == "metric_enum_bad":
            rejected_raise(
                lambda: env.set_enum_metric("per.state", "zzz", 0.0), kind)
            rejected_raise(
                lambda: env.add_enum_metric("ghost_metric", "nope", True),
                kind)
        elif kind == "scale":
            before = keeper.scalar
            keeper.scale(-1.0)
            check(keeper.scalar == before, "partial-effect", kind)
        elif kind == "rate":
            before = fragile.get_rate()
            fragile.set_rate((0.0, -1.0, 0, -0.5)[num])
            check(fragile.get_rate() == before, "partial-effect", kind)
        elif kind == "machine_bad":
            st = [State("x0", lambda d: "nowhere", env=None)]
            mach = StateMachine(f"mx{num}", st)
            rejected_raise(mach.run, kind)
            check(mach.current_state == "x0", "partial-effect", kind)
            rejected_raise(lambda: StateMachine("my", []), kind)
        elif kind == "machine_raise":
            mode["raise"] = 1
        elif kind == "machine_enter":
            mode["veto"] = 1
        elif kind == "writer_unknown":
            check(writer.remove_stream(99999) is False, "accepted", kind)
        elif kind == "queue_unknown":
            check(writer.remove_queue(99999) is False, "accepted", kind)
        elif kind == "cmdq_bad":
            bad_cmd = (None, {"command": None}, {"x": 1}, {"command": "zz"})
            if bad_cmd[num] is not None:
                check(cmdq.execute(bad_cmd[num])[0] is False, "accepted",
                      kind)
            else:
                check(cmdq.execute("text")[0] is False, "accepted", kind)
        elif kind == "cmdq_raise":
            check(cmdq.execute({"command": "boom"})[0] is False, "accepted",
                  kind)
        elif kind == "task_raise":
            flags["task"] = 1
        elif kind == "init_raise":
            flags["init"] = 1
            periodic.restart()
        elif kind == "state_cb":
            flags["state"] = 1
            periodic.pause()
            periodic.unpause()
        elif kind == "data_raise":
            try:
                with machine.data():
                    raise Boom("data")
            except Boom:
                pass
        elif kind == "stream_ctx":
            count = [0]
            try:
                with writer.stream_added(BytesIO(),
                                         lambda: count.append(1)):
                    raise Boom("stream")
            except Boom:
                pass
            check(len(count) == 2, "cleanup", f"closer calls {len(count) - 1}")
        elif kind == "reg_dup":
            check(env.enum_registry.add_enum(from_enum(Color))
                  == (False, -1), "accepted", kind)
        elif kind == "service_dup":
            check(services.add("svc", [("other", 2)]) == (False, -1),
                  "accepted", kind)
            check(services.get_item(0) == [("localhost", 1)],
                  "partial-effect", kind)
        elif kind == "paused_ctx":
            try:
                with periodic.paused():
                    raise Boom("paused")
            except (Boom, AssertionError):
                pass
        elif kind == "booted_ctx":
            worker = Daemon(f"boot{next(uniq)}", task_ok, 0.01)
            try:
                with worker.booted():
                    c.wait_until(
                        lambda: worker.get_state() == DaemonState.RUNNING)
                    raise Boom("booted")
            except Boom:
                pass
            check(worker.get_state() == DaemonState.IDLE, "cleanup",
                  "booted daemon not stopped")

    def task_ok(*_, **__):
        pass

    def fragile_ops(num):
        """Operations that don't apply to an idle daemon."""
        return (fragile.stop, fragile.pause, fragile.unpause,
                fragile.restart)[num]()

    def rejected_raise(fn, what):
        try:
            out = fn()
        except (AssertionError, KeyError, ValueError):
            return
        check(False, "accepted", f"{what}: returned {out!r}")

    def good(kind, num):
        if kind == "add":
            k = next(uniq)
            env.add_channel(f"new{k}", Primitive.INT16, 1.0, True, (k, None))
            model["chan"] += 1
        elif kind == "set":
            env.set_now(fixed, num)
        elif kind == "group":
            with groups.group(gid) as data:
                data["a"] = data["b"] = num
        elif kind == "gread":
            group.read()
        elif kind == "dispatch":
            env.dispatch_now(should_log=False)
            model["dispatch"] += 1
        elif kind == "enum":
            k = next(uniq)
            env.add_enum(user_enum(f"kind{k}", {0: "aa", 1: "bb"}))
            model["enum"] += 1
        elif kind == "daemon":
            manager.perform("per", (Op.PAUSE, Op.UNPAUSE, Op.START,
                                    Op.RESTART)[num])
        elif kind == "cmdq":
            k = next(uniq)
            asked = sim.now
            res = cmdq.execute({"command": "ok", "data": {"v": k}})
            # a starved worker may miss the caller's (2 second) limit
            check(res == (True, f"got {k}") or (
                sim.now - asked >= 2.0 and res == (False, "Command result not known.")),
                "wrong-result", f"{k}: {res}")
        elif kind == "machine":
            try:
                machine.run()
                iters[0] += 1
            except Boom:
                pass
        elif kind == "states":
            check(set(manager.states()) ==
                  {"time", "per", "cmd", "writer", "fragile"},
                  "wrong-result", f"states {manager.states()}")
        elif kind == "metric":
            env.add_metric(f"met{num}", Primitive.UINT8, False, (num, None))
        elif kind == "describe":
            env.channel_registry.describe()
            env.enum_registry.describe()

    metrics_before = set()

    def work(ops):
        for kind, num, pause in ops:
            (bad if kind in BAD else good)(kind, num)
            if pause:
                c.sleep(pause)

    stop = []

    def watch():
        pause = 2e-4
        while not stop:
            no_ghosts()
            c.sleep(pause)
            pause = min(pause * 1.1, 0.05)

    helper = c.Crew()
    if plan["watch"]:
        helper.go(watch, name="watch")
    crew = c.Crew()
    for n, ops in enumerate(plan["threads"]):
        crew.go(work, ops, name=f"t{n}")
    del base_state
    crew.join(what="operations")
    stop.append(1)
    helper.join(what="watcher")
    del metrics_before

    # everything is still usable, by a thread that holds nothing
    def aftermath():
        no_ghosts()
        flags.update(task=0, init=0, state=0)
        mode.update({"raise": 0, "veto": 0})
        if periodic.get_state() == DaemonState.PAUSED:
            periodic.unpause()
        c.wait_until(lambda: periodic.get_state() in
                     (DaemonState.IDLE, DaemonState.RUNNING),
                     what="periodic daemon settles")
        if periodic.get_state() == DaemonState.IDLE:
            check(periodic.start(), "start-failed", "per after failures")
        before = ticks[0]

        def runs():
            # a failure requested earlier may end it once more
            if periodic.get_state() == DaemonState.IDLE:
                periodic.start()
            return ticks[0] > before + 2

        c.wait_until(runs, limit=20, what="periodic runs")
        for kind in GOOD:
            if kind != "daemon":
                good(kind, 1)
        check(group.read()["a"] == 1, "wrong-result", "group")
        check(env.set_enum_now(ecol, "blue"), "wrong-result", "set_enum_now")
        check(env.get_enum_value(ecol) == "blue", "wrong-result", "enum")
        size = len(sink.getvalue())
        env.set_now(fixed, 99)
        env.dispatch_now(should_log=False)
        model["dispatch"] += 1
        c.wait_until(lambda: len(sink.getvalue()) > size,
                     what="telemetry written")
        metrics = [n for n in env.metrics if n.startswith("met")
                   and n[3:].isdigit()]
        late = [n for n in env.metrics if n not in start_metrics
                and n not in metrics]
        check(env.channel_registry.count() ==
              base_chan + model["chan"] + len(metrics) + len(late),
              "wrong-count", f"channels {env.channel_registry.count()}")
        check(env.enum_registry.count() == base_enum + model["enum"],
              "wrong-count", "enums")
        check(env.type_registry.count() == base_type + model["enum"],
              "wrong-count", "types")
        check(env.get_metric("channel_count") == env.channel_registry.count(),
              "wrong-count", "channel_count metric")
        check(env.get_metric("dispatch_count") == model["dispatch"],
              "wrong-count", "dispatch_count metric")
        check(groups.count() == 1, "wrong-count", "groups")
        ids = sorted(env.channel_registry.get_id(n)
                     for n in list(env.channel_registry.data["mappings"]))
        check(ids == list(range(len(ids))), "wrong-count", "channel ids")
        for daemon in (periodic, cmdq, writer, keeper):
            check(daemon.stop(), "stop-failed", daemon.name)
            check(daemon.get_state() == DaemonState.IDLE, "stop-failed",
                  f"{daemon.name} {daemon.get_state()}")

    start_metrics = set(env.metrics)
    # daemon metrics that are only registered on first use count as channels
    last = c.Crew()
    last.go(aftermath, name="aftermath")
    last.join(what="operations after the failures")
    sim.note(env.channel_registry.count())
