"""C04: concurrent updates of channels, metrics and counters add up."""

from queue import Empty, Full

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["threads"]
RUNS = {"quick": 3000, "thorough": 80000}
REAL = ("Channel, TypePrimitive, ChannelEnvironment metrics, MeteredQueue, "
        "DaemonBase metrics, QueueDaemon, event queue")
CHANS = (("UINT32", 50), ("INT8", 0), ("UINT8", 3), ("INT64", -7),
         ("DOUBLE", 0.0), ("INT16", 100))


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(1, 14)):
            kind = rng.choice((
                "add", "add", "cmdadd", "metric", "metric", "put", "put",
                "get", "tryget", "tryput", "inc", "inc", "dec", "newmetric",
                "newinc", "elem", "dispatch", "enum", "rate"))
            ops.append([kind, rng.randrange(6), rng.randint(-3, 5),
                        rng.choice((0, 0, 0, 1e-4, 2e-3))])
        threads.append(ops)
    return {
        "cfg": sched_cfg(rng),
        "maxq": rng.choice((1, 2, 64)),
        "track": rng.random() < 0.5,
        "threads": threads,
    }


def run(sim, plan):
    from vtelem.classes.metered_queue import create
    from vtelem.daemon import DaemonBase, DaemonState
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(500, metrics_rate=1.0, app_id_basis=0.25)
    chans = []
    for i, (kind, init) in enumerate(CHANS):
        ident = env.add_channel(f"c{i}", Primitive[kind], 1.0, plan["track"],
                                (init, None))
        chans.append([env.channel_registry.get_item(ident), init])
    for i in range(6):
        env.add_metric(f"m{i}", Primitive.INT32, plan["track"], (0, None))
    queue = create("work", env, plan["maxq"])
    feed = create("feed", env)
    daemon = DaemonBase("base", env)
    if plan["track"]:
        daemon.function["track_metric_changes"] = True
    handled = []

    def handle(elem):
        handled.append(elem)
        worker.increment_metric("handled")

    worker = QueueDaemon("worker", feed, handle, env)
    check(worker.start(), "start-failed", "")
    c.wait_until(lambda: worker.get_state() == DaemonState.RUNNING)

    want = {}  # name -> sum of accepted updates
    put = [0]
    got = [0]
    fed = [0]
    frames = [0]
    disp = [0]
    lock_clock = [0.0]

    def bump(key, val):
        want[key] = want.get(key, 0) + val

    def work(n, ops):
        for k, (kind, idx, num, pause) in enumerate(ops):
            if kind in ("add", "cmdadd"):
                chan, init = chans[idx]
                val = num * (10 if idx in (1, 2) else 1)
                if isinstance(init, float):
                    val = float(num)
                fn = chan.add if kind == "add" else (
                    lambda v, t: chan.command(v, t, True))
                if fn(val, 1.0):
                    bump(("chan", idx), val)
                else:
                    sim.probe("update_rejected")
                    check(idx in (1, 2), "update-rejected",
                          f"{chan.name} add {val}")
            elif kind == "metric":
                env.metric_add(f"m{idx}", num, 1.0)
                bump(("metric", f"m{idx}"), num)
            elif kind == "put":
                queue.put((n, k))
                put[0] += 1
            elif kind == "tryput":
                try:
                    if num & 1:
                        queue.put((n, k), block=False)
                    else:
                        queue.put((n, k), timeout=1e-3)
                    put[0] += 1
                except Full:
                    sim.probe("queue_full")
            elif kind == "get":
                try:
                    queue.get(timeout=0.01)
                    got[0] += 1
                except Empty:
                    sim.probe("queue_empty")
            elif kind == "tryget":
                try:
                    queue.get(False)
                    got[0] += 1
                except Empty:
                    sim.probe("queue_empty")
            elif kind == "inc":
                daemon.increment_metric(f"d{idx % 3}", abs(num))
                bump(("daemon", f"d{idx % 3}"), abs(num))
            elif kind == "dec":
                daemon.increment_metric(f"e{idx % 3}", 2)
                daemon.decrement_metric(f"e{idx % 3}")
                bump(("daemon", f"e{idx % 3}"), 1)
            elif kind == "newmetric":
                # several threads register the same metric
                env.add_metric(f"x{idx % 2}", Primitive.UINT32, False,
                               (0, None))
                env.metric_add(f"x{idx % 2}", 1, 1.0)
                bump(("metric", f"x{idx % 2}"), 1)
            elif kind == "newinc":
                daemon.increment_metric(f"n{k}")
                bump(("daemon", f"n{k}"), 1)
            elif kind == "elem":
                feed.put((n, k))
                fed[0] += 1
            elif kind == "dispatch":
                lock_clock[0] += 0.01
                num = env.dispatch(lock_clock[0], False)
                frames[0] += num
                disp[0] += 1
            elif kind == "enum":
                from enum import IntEnum

                cls = IntEnum(f"Kind{idx}", {"aa": 1, "bb": 2})
                env.add_from_enum(cls)
                env.add_enum_metric(f"enum{idx}", f"kind{idx}", True)
            elif kind == "rate":
                env.set_channel_rate(idx, 0.5)
            if pause:
                c.sleep(pause)

    # one consumer makes sure that blocking puts make progress
    stop = []

    def drain():
        while not stop or not queue.empty():
            try:
                queue.get(timeout=0.02)
                got[0] += 1
            except Empty:
                pass

    def drain_frames():
        while True:
            if env.get_next_frame(timeout=36000) is None:
                return

    helpers = c.Crew()
    helpers.go(drain, name="drain")
    helpers.go(drain_frames, name="drain-frames")
    crew = c.Crew()
    for n, ops in enumerate(plan["threads"]):
        crew.go(work, n, ops, name=f"t{n}")
    crew.join(what="updates")
    stop.append(1)
    env.frame_queue.put(None)
    helpers.join(what="consumers")
    check(worker.stop(60), "stop-failed", worker.get_state_str())
    c.wait_until(lambda: worker.get_state() == DaemonState.IDLE)

    for i, (chan, init) in enumerate(chans):
        total = init + want.get(("chan", i), 0)
        check(chan.get() == total, "lost-update",
              f"{chan.name}: {chan.get()} != {total}")
    for (kind, name), total in want.items():
        if kind == "metric":
            val = env.get_metric(name)
        elif kind == "daemon":
            val = env.get_metric(daemon.get_metric_name(name))
        else:
            continue
        check(val == total, "lost-update", f"{kind} {name}: {val} != {total}")

    def queue_metrics(name, enq, deq, left):
        vals = [env.get_metric(f"{name}_queue.{x}") for x in
                ("elements", "total_enqueued", "total_dequeued")]
        check(vals == [left, enq, deq], "queue-metrics",
              f"{name}: elements, enqueued, dequeued are {vals}, "
              f"expected {[left, enq, deq]}")

    queue_metrics("work", put[0], got[0], 0)
    check(put[0] == got[0], "lost-element", f"{put[0]} put, {got[0]} got")
    # the stop marker is counted as an element of its queue
    queue_metrics("feed", fed[0] + 1, fed[0] + 1, 0)
    check(len(handled) == fed[0], "lost-element", f"{len(handled)}/{fed[0]}")
    val = env.get_metric("worker.handled") if handled else 0
    check(val == fed[0], "lost-update", f"worker.handled {val} != {fed[0]}")
    queue_metrics("frame", frames[0] + 1, frames[0] + 1, 0)
    check(env.get_metric("dispatch_count") == disp[0], "lost-update",
          f"dispatch_count {env.get_metric('dispatch_count')} != {disp[0]}")
    count = env.channel_registry.count()
    check(env.get_metric("channel_count") == count, "lost-update",
          f"channel_count {env.get_metric('channel_count')} != {count}")
    for name, obj in (("enum_count", env.enum_registry),
                      ("type_count", env.type_registry)):
        check(env.get_metric(name) == obj.count(), "lost-update",
              f"{name} {env.get_metric(name)} != {obj.count()}")
    vals = [env.get_metric(f"worker.{x}")
            for x in ("starts", "stops", "count", "errors")]
    check(vals == [1, 1, 1, 0], "daemon-counters", f"{vals}")
    sim.note(count + put[0])
