"""C05: group reads, writes, contexts and dispatches are atomic."""

from ..child import sched_cfg
from . import common as c
from . import wirefmt as w
from .common import check

SHRINK = ["threads", "dispatches", "channels"]
RUNS = {"quick": 3000, "thorough": 80000}
REAL = ("ChannelGroup, ChannelGroupRegistry, TelemetryEnvironment, "
        "ChannelFramer, Channel, enums, frames, MeteredQueue")
TYPES = ("UINT32", "DOUBLE", "INT64", "UINT16", "FLOAT", "ENUM")


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(1, 10)):
            ops.append([rng.choice(("write", "write", "read", "read", "half",
                                    "ctx", "ctxraise", "grow", "ctxhalf",
                                    "idle")),
                        rng.randrange(2), rng.randrange(2),
                        rng.choice((0, 0, 0, 1e-4, 2e-3))])
        threads.append(ops)
    return {
        "cfg": sched_cfg(rng),
        "groups": rng.choice((1, 1, 2)),
        "registry": rng.random() < 0.5,
        "mtu": rng.choice((64, 100, 500)),
        "channels": [rng.choice(TYPES) for _ in range(rng.randint(2, 6))],
        "track": rng.random() < 0.3,
        "threads": threads,
        "dispatches": [rng.choice((0, 0, 1e-4, 2e-3))
                       for _ in range(rng.randint(0, 8))],
        "dispatchers": rng.choice((1, 1, 2)),
    }


class Write:
    __slots__ = ("call", "ret", "num", "parts")


class Seen:
    __slots__ = ("call", "ret", "nums", "what")


class Boom(Exception):
    pass


def run(sim, plan):
    from vtelem.channel.group import ChannelGroup
    from vtelem.channel.group_registry import ChannelGroupRegistry
    from vtelem.classes.user_enum import UserEnum, user_enum_data
    from vtelem.enums.primitive import Primitive
    from vtelem.frame import time_to_int
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(plan["mtu"], metrics_rate=1.0,
                               app_id_basis=0.25)
    env.add_enum(UserEnum(user_enum_data(
        "numbers", {i: f"v{i}" for i in range(256)}, "v0")))
    seq = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    def enc(kind, num):
        if kind == "ENUM":
            return f"v{num}"
        if kind in ("DOUBLE", "FLOAT"):
            return float(num)
        return num

    def dec(val):
        if isinstance(val, str):
            return int(val[1:])
        return int(val)

    class Grp:
        pass

    reg = ChannelGroupRegistry(env) if plan["registry"] else None
    groups = []
    for g in range(plan["groups"]):
        grp = Grp()
        if reg is None:
            grp.obj = ChannelGroup(f"g{g}", env)
        else:
            grp.id = reg.create_group(f"g{g}")
            grp.obj = reg.get_item(grp.id)
        grp.names = {}
        for i, kind in enumerate(plan["channels"]):
            name = f"c{i}"
            if kind == "ENUM":
                if reg is None:
                    ok = grp.obj.add_enum_channel(name, "numbers", 0.0,
                                                  plan["track"])
                else:
                    ok = reg.add_enum_channel(grp.id, name, "numbers", 0.0,
                                              plan["track"]) is None
            elif reg is None:
                ok = grp.obj.add_channel(name, Primitive[kind], 0.0,
                                         plan["track"])
            else:
                ok = reg.add_channel(grp.id, name, Primitive[kind], 0.0,
                                     plan["track"]) is None
            check(ok, "add-failed", name)
            grp.names[name] = kind
        grp.half = [[n for i, n in enumerate(grp.names) if i % 2 == h]
                    for h in (0, 1)]
        grp.ids = {
            env.channel_registry.get_id(f"g{g}.{n}"): n for n in grp.names}
        init = Write()
        init.call = init.ret = 0
        init.num = 0
        init.parts = (0, 1)
        grp.writes = [init]
        grp.seen = []
        groups.append(grp)

    number = [0]

    def begin(grp, parts):
        wr = Write()
        number[0] += 1
        wr.num = number[0]
        wr.parts = parts
        wr.ret = 1 << 60
        return wr

    def observe(grp, values, call, what):
        got = Seen()
        got.call = call
        got.ret = tick()
        got.what = what
        got.nums = []
        for h in (0, 1):
            nums = {dec(values[n]) for n in grp.half[h]}
            check(len(nums) <= 1, "torn-" + what,
                  f"{what} saw {values} (written together)")
            got.nums.append(nums.pop() if nums else None)
        grp.seen.append(got)

    grown = [0]

    def work(n, ops):
        for kind, g, h, pause in ops:
            grp = groups[g % len(groups)]
            if kind == "write":
                wr = begin(grp, (0, 1))
                vals = {x: enc(k, wr.num) for x, k in grp.names.items()}
                wr.call = tick()
                grp.writes.append(wr)
                grp.obj.write(vals)
                wr.ret = tick()
            elif kind == "half":
                wr = begin(grp, (h,))
                vals = {x: enc(grp.names[x], wr.num) for x in grp.half[h]}
                wr.call = tick()
                grp.writes.append(wr)
                grp.obj.write(vals)
                wr.ret = tick()
            elif kind == "read":
                call = tick()
                observe(grp, grp.obj.read(), call, "read")
            elif kind in ("ctx", "ctxraise", "ctxhalf"):
                wr = begin(grp, (0, 1))
                call = tick()
                ctx = (reg.group(grp.id) if reg is not None
                       else grp.obj.data())
                other = None
                try:
                    with ctx as data:
                        observe(grp, data, call, "context")
                        if kind == "ctxhalf":
                            # the other half is published as it was read
                            wr.parts = (h,)
                            other = Write()
                            other.parts = (1 - h,)
                            other.num = grp.seen[-1].nums[1 - h]
                            other.ret = 1 << 60
                        for x in grp.names:
                            if kind != "ctxhalf" or x in grp.half[h]:
                                data[x] = enc(grp.names[x], wr.num)
                        if pause:
                            c.sleep(pause)
                        wr.call = tick()
                        grp.writes.append(wr)
                        if other is not None and other.num is not None:
                            other.call = wr.call
                            grp.writes.append(other)
                        if kind == "ctxraise":
                            sim.fault("context_exception")
                            raise Boom()
                except Boom:
                    pass
                wr.ret = tick()
                if other is not None:
                    other.ret = wr.ret
            elif kind == "grow":
                grown[0] += 1
                name = f"extra{grown[0]}"
                check(grp.obj.add_channel(name, Primitive.UINT8, 50.0),
                      "add-failed", name)
                check(not grp.obj.add_channel(name, Primitive.UINT8, 50.0),
                      "added-twice", name)
            if pause:
                c.sleep(pause)

    when = [100]
    disp = {}

    def dispatch(pauses):
        for pause in pauses:
            when[0] += 1
            mine = when[0]
            call = tick()
            env.dispatch(float(mine), False)
            disp[time_to_int(float(mine))] = (call, tick())
            if pause:
                c.sleep(pause)

    frames = []

    def consume():
        while True:
            frame = env.get_next_frame(timeout=36000)
            if frame is None:
                return
            frames.append(frame)

    consumer = c.Crew()
    consumer.go(consume, name="consumer")
    crew = c.Crew()
    for n, ops in enumerate(plan["threads"]):
        crew.go(work, n, ops, name=f"t{n}")
    for n in range(plan["dispatchers"]):
        crew.go(dispatch, plan["dispatches"], name=f"disp{n}")
    crew.join(what="group operations")
    for grp in groups:
        call = tick()
        observe(grp, grp.obj.read(), call, "read")
    env.frame_queue.put(None)
    consumer.join(what="frame consumer")

    types = {i: env.channel_registry.get_item(i).type.name
             for i in range(env.channel_registry.count())}
    emitted = {}
    for frame in frames:
        got = w.decode(c.wire(frame), types, True)
        if got.type == w.DATA:
            emitted.setdefault(got.time, {}).update(dict(got.items))
    for stamp, (call, ret) in disp.items():
        vals = emitted.get(stamp, {})
        for grp in groups:
            mine = {n: vals[i] for i, n in grp.ids.items() if i in vals}
            if len(mine) != len(grp.names):
                # dispatches out of time order skip channels, consistently
                sim.probe("not_due")
                check(plan["dispatchers"] > 1, "not-emitted", f"{mine}")
                continue
            got = Seen()
            got.call, got.ret, got.what = call, ret, "dispatch"
            got.nums = []
            for h in (0, 1):
                nums = {int(mine[n]) for n in grp.half[h]}
                check(len(nums) <= 1, "torn-dispatch", f"emitted {mine}")
                got.nums.append(nums.pop() if nums else None)
            grp.seen.append(got)
    for grp in groups:
        evaluate(sim, grp)


def evaluate(sim, grp):
    full = {}
    for wr in grp.writes:
        if len(wr.parts) == 2:
            full[wr.num] = wr
    for h in (0, 1):
        writes = [x for x in grp.writes if h in x.parts]
        for s in grp.seen:
            num = s.nums[h]
            if num is None:
                continue
            cands = [x for x in writes if x.num == num and x.call < s.ret]
            check(cands, "value-not-written", f"{s.what} saw {num}")
            ok = any(
                not any(o.call > x.ret and o.ret < s.call for o in writes)
                for x in cands
            )
            check(ok, "stale-" + s.what,
                  f"{s.what} saw {num} although a later write had completed")
            sim.note(num)
    # both halves: a complete write is never half visible
    for s in grp.seen:
        a, b = s.nums
        if a is None or b is None or a == b:
            continue
        for x, h in ((a, 1), (b, 0)):
            if x not in full:
                continue
            # half h no longer shows x: some other write replaced it, so it
            # must have begun before this was seen and not ended before x
            y = s.nums[h]
            ok = any(
                o.num == y and h in o.parts and o.call < s.ret
                and not (o.ret < full[x].call)
                for o in grp.writes
            )
            check(ok, "torn-" + s.what,
                  f"{s.what} saw halves {s.nums}: write {x} is half visible")
        # two complete writes can never be visible together
        if a in full and b in full:
            again = [o for o in grp.writes if len(o.parts) == 1
                     and o.num in (a, b)]
            check(again, "torn-" + s.what,
                  f"{s.what} saw two complete writes {s.nums}")
