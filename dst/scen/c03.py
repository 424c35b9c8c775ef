"""C03: change events of channels with many writers and dispatchers."""

from ..child import sched_cfg
from . import common as c
from . import wirefmt as w
from .c02 import compare
from .common import check

SHRINK = ["writers", "dispatchers", "channels"]
RUNS = {"quick": 3000, "thorough": 80000}
REAL = ("TypePrimitive, Channel, EventQueue, ChannelFramer, "
        "ChannelEnvironment, frames, MeteredQueue, decoder")
KINDS = ("UINT32", "INT32", "INT64", "UINT64", "DOUBLE")


def gen(rng, tier):
    chans = [[rng.choice(KINDS), rng.choice((0.0, 100.0)),
              rng.random() < 0.85]
             for _ in range(rng.randint(1, 3))]
    nw = rng.choice((1, 2, 2, 3, 4))
    writers = []
    for _ in range(nw):
        ops = []
        for _ in range(rng.randint(1, 14)):
            kind = rng.choice(("set", "set", "set", "add", "cmdadd", "cmd",
                               "now", "same", "bad", "badcmd", "group"))
            ops.append([kind, rng.randrange(len(chans)), rng.randint(0, 3),
                        rng.choice((0, 0, 0, 1e-4, 2e-3))])
        writers.append(ops)
    disp = [[rng.choice((0, 1e-5, 1e-4, 2e-3))
             for _ in range(rng.randint(1, 6))]
            for _ in range(rng.choice((0, 1, 1, 2)))]
    return {
        "cfg": sched_cfg(rng),
        "metrics": rng.choice((None, None, 1.0)),
        "mtu": rng.choice((53, 64, 100, 200, 500)),
        "channels": chans,
        "writers": writers,
        "dispatchers": disp,
        "small": rng.random() < 0.4,
        "tiny": rng.random() < 0.5,
    }


class Op:
    __slots__ = ("call", "ret", "kind", "value", "delta", "time", "event")


def run(sim, plan):
    from vtelem.enums.primitive import Primitive
    from vtelem.frame import time_to_int
    from vtelem.telemetry.environment import TelemetryEnvironment

    seq = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    env = TelemetryEnvironment(plan["mtu"], metrics_rate=plan["metrics"],
                               app_id_basis=0.25)
    envtime = 7.0
    env.set_time(envtime)
    base_chans = env.channel_registry.count()
    chans = []
    for i, (kind, rate, track) in enumerate(plan["channels"]):
        ident = env.add_channel(f"c{i}", Primitive[kind], rate, track)
        chans.append({"id": ident, "kind": kind, "ops": [], "track": track,
                      "obj": env.channel_registry.get_item(ident)})
    frames = []

    def consume():
        while True:
            frame = env.get_next_frame(timeout=36000)
            if frame is None:
                return
            frames.append(frame)

    stamp = [1000]

    def conv(kind, num):
        if kind == "DOUBLE":
            # (sums of these are exact)
            return num * 2.0 ** -20 if plan["tiny"] else float(num)
        return num

    def writer(n, ops):
        for k, (kind, idx, num, pause) in enumerate(ops):
            ch = chans[idx % len(chans)]
            obj = ch["obj"]
            unique = conv(ch["kind"], 1_000_000 * (n + 1) + k)
            small = conv(ch["kind"], num)
            if kind in ("bad", "badcmd"):
                val = "x" if num & 1 else None
                if ch["kind"] != "DOUBLE" and num > 1:
                    val = 1 << 65 if num == 2 else -(1 << 65)
                call = obj.command if kind == "badcmd" else obj.set
                check(call(val, 3.0) is False, "bad-accepted", f"{val}")
                continue
            op = Op()
            op.kind = kind
            op.delta = None
            op.event = None
            stamp[0] += 1
            op.time = float(stamp[0])
            op.value = small if plan["small"] and kind != "now" else unique
            if kind in ("add", "cmdadd"):
                op.delta = conv(ch["kind"], num)
                op.value = None
            if kind == "group":
                kind = "now"
                op.value = unique
            if kind == "now":
                op.value = unique
                op.time = envtime
            if kind == "same":
                # whatever it holds when read; may or may not be a change
                op.value = obj.get()
            ch["ops"].append(op)
            op.call = tick()
            if kind in ("set", "same"):
                res = obj.set(op.value, op.time)
            elif kind == "add":
                res = obj.add(op.delta, op.time)
            elif kind == "cmdadd":
                res = obj.command(op.delta, op.time, True)
            elif kind == "cmd":
                res = obj.command(op.value, op.time)
            else:
                res = env.set_now(ch["id"], op.value)
            op.ret = tick()
            check(res is True, "rejected", f"{kind} {op.value}")
            if pause:
                c.sleep(pause)

    dtime = [0]

    def dispatcher(pauses):
        for pause in pauses:
            dtime[0] += 1
            env.dispatch(float(dtime[0]), False)
            if pause:
                c.sleep(pause)

    consumer = c.Crew()
    consumer.go(consume, name="consumer")
    crew = c.Crew()
    for n, ops in enumerate(plan["writers"]):
        crew.go(writer, n, ops, name=f"writer{n}")
    for n, pauses in enumerate(plan["dispatchers"]):
        crew.go(dispatcher, pauses, name=f"disp{n}")
    crew.join(what="writes and dispatches")
    dispatcher([0, 0])
    env.frame_queue.put(None)
    consumer.join(what="frame consumer")

    types = {i: env.channel_registry.get_item(i).type.name
             for i in range(env.channel_registry.count())}
    seen = {}
    total = 0
    for frame in frames:
        raw = c.wire(frame)
        try:
            got = w.decode(raw, types, True)
        except w.Bad as exc:
            raise c.Violation("bad-frame", f"{exc}: {raw.hex()}")
        check(got.size <= plan["mtu"], "oversized", f"{got.size}")
        lib = env.decode_frame(raw, len(raw), env.app_id)
        check(lib is not None, "undecodable", raw.hex())
        compare(lib, got)
        if got.type == w.EVENT:
            for ident, prev, curr in got.items:
                total += 1
                seen.setdefault(ident, []).append((prev, curr))
    sim.note(total)
    if plan["metrics"] is not None:
        check(env.get_metric("events_captured") == total, "event-count",
              f"{env.get_metric('events_captured')} != {total}")
        for ident in range(base_chans):
            chain(seen.get(ident, []), f"metric {ident}")
    for ch in chans:
        evaluate(sim, ch, seen.get(ch["id"], []), envtime, time_to_int)


def chain(events, what):
    for a, b in zip(events, events[1:]):
        check(a[1][0] == b[0][0], "broken-chain",
              f"{what}: {a} then {b}")


def evaluate(sim, ch, events, envtime, time_to_int):
    name = ch["obj"].name
    ops = ch["ops"]
    if not ch["track"]:
        check(not events, "untracked-event", f"{name}: {events}")
        total = sum(o.delta for o in ops if o.delta is not None)
        if all(o.delta is not None for o in ops):
            check(ch["obj"].get() == total, "lost-update",
                  f"{name}: {ch['obj'].get()} != {total}")
        return
    env_stamp = time_to_int(envtime)
    by_time = {time_to_int(o.time): o for o in ops if o.time != envtime}
    by_value = {o.value: o for o in ops if o.time == envtime}
    times_of = {}
    for o in ops:
        if o.delta is None:
            times_of.setdefault(o.value, set()).add(time_to_int(o.time))
    zero_adds = {time_to_int(o.time) for o in ops if o.delta == 0}
    value, when = 0, 0
    order = []
    for prev, curr in events:
        check(prev[0] == value, "broken-chain",
              f"{name}: previous {prev}, preceding current {(value, when)}")
        check(prev[1] == when or prev[1] in times_of.get(prev[0], ())
              or prev[1] in zero_adds
              or (prev[1] == env_stamp and prev[0] in by_value),
              "broken-chain",
              f"{name}: previous {prev}, preceding current {(value, when)}")
        check(curr[0] != prev[0], "no-change-event", f"{name}: {prev} {curr}")
        last = order[-1] if order else None
        if curr[1] == env_stamp:
            op = by_value.get(curr[0])
        else:
            op = by_time.get(curr[1])
        check(op is not None, "unknown-event", f"{name}: {curr}")
        check(op.event is None, "reported-twice", f"{name}: {curr}")
        op.event = len(order)
        if prev[1] != env_stamp:
            # the value may have been set again before it changed
            source = by_time.get(prev[1])
            for o in ops:
                again = o.value == prev[0] if o.delta is None else not o.delta
                if again and o.time != envtime and o.ret < op.call and (
                        last is None or o.call > last.ret):
                    check(source is not None and source.ret >= o.call,
                          "stale-time", f"{name}: previous {prev} was set "
                          f"again at {time_to_int(o.time)}")
        order.append(op)
        want = prev[0] + op.delta if op.delta is not None else op.value
        check(curr[0] == want, "lost-update",
              f"{name}: {prev} -> {curr}, expected {want}")
        value, when = curr
    check(ch["obj"].get() == value, "missing-event",
          f"{name} holds {ch['obj'].get()}, last event says {value}")
    for a, b in zip(order, order[1:]):
        check(not b.ret < a.call, "out-of-order",
              f"{name}: {b.time} reported after {a.time}")
    high = 0
    for a in order:
        # every event before a must not have started after a returned
        check(high < a.ret, "out-of-order", f"{name}: {a.time}")
        high = max(high, a.call)
    sim.note(len(order))
    for o in ops:
        if o.event is not None:
            continue
        if o.delta is not None:
            check(o.delta == 0, "missing-event", f"{name}: add {o.delta}")
            continue
        # the value must have been current at some moment of the operation
        ok = False
        seq = [(0, 0, 0)]
        vals = [0]
        for e, op in zip(events, order):
            vals.append(e[1][0])
            seq.append((op.call, op.ret, 0))
        for k, v in enumerate(vals):
            if v != o.value:
                continue
            start = seq[k][0]
            end = seq[k + 1][1] if k + 1 < len(vals) else 1 << 60
            if start < o.ret and end > o.call:
                ok = True
        check(ok, "missing-event", f"{name}: set {o.value} at {o.time}")
