"""C02: dispatch under concurrent registration, writes, rates and limits."""

from ..child import sched_cfg
from . import common as c
from . import wirefmt as w
from .common import check

SHRINK = ["channels", "adders", "setters", "raters", "limits", "dispatches"]
RUNS = {"quick": 2500, "thorough": 60000}
REAL = ("ChannelEnvironment/TelemetryEnvironment, ChannelFramer, Channel, "
        "frames, MeteredQueue, EventQueue, ChannelRegistry, decoder")

TYPES = list(w.FMT)
RATES = (0.0, 0.25, 0.5, 1.0, 2.5)


def chan(rng, track=None):
    t = rng.choice(TYPES)
    return [t, rng.choice(RATES),
            rng.random() < 0.3 if track is None else track,
            rng.random() < 0.5]


def gen(rng, tier):
    n = rng.choice((0, 1, 2, 4, 8, 12))
    chans = [chan(rng) for _ in range(n)]
    adders = [[chan(rng) + [rng.choice((0, 0, 1e-4, 5e-3))]
               for _ in range(rng.randint(1, 6))]
              for _ in range(rng.choice((0, 0, 1, 2)))]
    setters = [[[rng.randrange(8), rng.randrange(1 << 30),
                 rng.choice(("set", "now", "cmd", "cmdname", "bad")),
                 rng.choice((0, 0, 1e-4, 2e-3))]
                for _ in range(rng.randint(1, 15))]
               for _ in range(rng.choice((0, 1, 2)))]
    raters = [[rng.randrange(8), rng.choice(RATES),
               rng.choice((0, 1e-4, 5e-3))]
              for _ in range(rng.choice((0, 0, 3, 6)))]
    mtu = rng.choice((53, 60, 64, 80, 120, 200, 500))
    limits = [[rng.choice((53, 55, 60, 75, 100, 180, 400, 1000)),
               rng.choice((0, 1e-3, 5e-3)), rng.randrange(2)]
              for _ in range(rng.choice((0, 0, 1, 3, 4)))]
    return {
        "cfg": sched_cfg(rng),
        "tele": rng.random() < 0.5,
        "metrics": rng.choice((None, None, 0.5, 1.0)),
        "init": rng.random() < 0.3,
        "crc": rng.random() < 0.8,
        "mtu": mtu,
        "channels": chans,
        "adders": adders,
        "setters": setters,
        "raters": raters,
        "limits": limits,
        "dispatches": [[rng.choice((0.25, 0.25, 0.5, 1.0, 3.0)),
                        rng.choice(("at", "now")),
                        rng.choice((0, 0, 1e-4, 5e-3))]
                       for _ in range(rng.randint(1, 12))],
        "slow": rng.choice((0, 0, 1e-3)),
        "basis": rng.choice((0.5, 0.1, 3.0)),
    }


def value_for(name, num):
    """A valid value of a type, as different as possible for different num."""
    if name == "BOOLEAN":
        return bool(num & 1)
    if name in ("FLOAT", "DOUBLE"):
        return float(num) / (8 if num & 1 else 1)
    bits = 8 * w.size_of(name)
    val = num % (1 << bits)
    if name.startswith("INT") and val >= 1 << (bits - 1):
        val -= 1 << bits
    return val


def bad_value(name, num):
    """A value the channel must reject."""
    if name == "BOOLEAN":
        return num
    if name in ("FLOAT", "DOUBLE"):
        return "text" if num & 1 or name == "DOUBLE" else 1e300
    return (1 << 70) if num & 1 else 1.5


class Chan:
    def __init__(self, name, spec):
        self.name = name
        self.type, self.rate, self.track, self.cmd = spec[:4]
        self.id = None
        self.call = self.ret = None
        self.rates = []  # (call, ret, rate)
        self.writes = []  # (call, ret, value)
        self.last = 0.0


def run(sim, plan):
    from vtelem.channel import Channel
    from vtelem.channel.environment import ChannelEnvironment
    from vtelem.enums.primitive import Primitive
    from vtelem.frame import time_to_int
    from vtelem.telemetry.environment import TelemetryEnvironment

    cls = TelemetryEnvironment if plan["tele"] else ChannelEnvironment
    seq = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    chans = []
    by_id = {}

    def started(spec, name):
        ch = Chan(name, spec)
        ch.call = tick()
        ch.rates.append((ch.call, ch.call, ch.rate))
        ch.writes.append((ch.call, ch.call, value_for(ch.type, 0)))
        return ch

    def registered(ch, ident):
        ch.id = ident
        ch.ret = tick()
        check(ident not in by_id, "duplicate-id", f"{ident}")
        by_id[ident] = ch
        chans.append(ch)

    initial = None
    pre = []
    if plan["init"]:
        initial = []
        for i, spec in enumerate(plan["channels"]):
            ch = started(spec, f"init{i}")
            ch.track = False
            initial.append(Channel(ch.name, Primitive[ch.type], ch.rate,
                                   None, ch.cmd))
            pre.append(ch)
    env = cls(plan["mtu"], metrics_rate=plan["metrics"],
              initial_channels=initial, app_id_basis=plan["basis"],
              use_crc=plan["crc"])
    for ch in pre:
        ident = env.channel_registry.get_id(ch.name)
        check(ident is not None, "lost-channel", ch.name)
        registered(ch, ident)

    def add(spec, name):
        ch = started(spec, name)
        ident = env.add_channel(name, Primitive[ch.type], ch.rate, ch.track,
                                None, ch.cmd)
        registered(ch, ident)
        return ch

    if not plan["init"]:
        for i, spec in enumerate(plan["channels"]):
            add(spec, f"c{i}")
    base = list(chans)
    app = env.app_id.get()

    frames = []

    def consume():
        while True:
            try:
                frame = env.get_next_frame(timeout=3600)
            except Exception as exc:  # queue.Empty
                raise c.Violation("consumer", repr(exc))
            if frame is None:
                return
            frames.append(frame)
            if plan["slow"]:
                c.sleep(plan["slow"])

    def adder(n, specs):
        for i, spec in enumerate(specs):
            add(spec, f"a{n}.{i}")
            if spec[4]:
                c.sleep(spec[4])

    def setter(n, count, ops):
        mine = [ch for i, ch in enumerate(base) if i % count == n]
        if not mine:
            return
        for idx, num, how, pause in ops:
            ch = mine[idx % len(mine)]
            if how in ("cmd", "cmdname") and not ch.cmd:
                how = "set"
            if how == "bad":
                val = bad_value(ch.type, num)
                res = env.set_now(ch.id, val)
                check(res is False, "bad-value-accepted",
                      f"{ch.type} accepted {val!r}")
            else:
                val = value_for(ch.type, num)
                call = tick()
                ent = [call, None, w.held(ch.type, val)]
                ch.writes.append(ent)
                if how == "set":
                    res = env.channel_registry.get_item(ch.id).set(
                        val, env.get_time())
                elif how == "now":
                    res = env.set_now(ch.id, val)
                elif how == "cmd":
                    res = env.command_channel_id(ch.id, val)
                else:
                    res = env.command_channel(ch.name, val)
                ent[1] = tick()
                check(res is True, "write-rejected", f"{ch.type} {val!r}")
            if pause:
                c.sleep(pause)

    def rater(ops):
        for idx, rate, pause in ops:
            if not base:
                return
            ch = base[idx % len(base)]
            ent = [tick(), None, rate]
            ch.rates.append(ent)
            env.set_channel_rate(ch.id, rate)
            ent[1] = tick()
            if pause:
                c.sleep(pause)

    mtus = [[0, 0, plan["mtu"]]]

    def limiter(n, ops):
        for new, pause, who in ops:
            if who != n:
                continue
            ent = [tick(), None, new]
            mtus.append(ent)
            env.handle_new_mtu(new)
            ent[1] = tick()
            if pause:
                c.sleep(pause)

    disp = []
    clock = [4.0]

    def dispatcher(ops):
        for step, how, pause in ops:
            now = clock[0] = clock[0] + step
            ent = [tick(), None, now, None]
            disp.append(ent)
            if how == "now":
                env.set_time(now)
                ent[3] = env.dispatch_now(should_log=False)
            else:
                ent[3] = env.dispatch(now, True)
            ent[1] = tick()
            if pause:
                c.sleep(pause)

    consumer = c.Crew()
    consumer.go(consume, name="consumer")
    crew = c.Crew()
    for n, specs in enumerate(plan["adders"]):
        crew.go(adder, n, specs, name=f"adder{n}")
    for n, ops in enumerate(plan["setters"]):
        crew.go(setter, n, len(plan["setters"]), ops, name=f"setter{n}")
    crew.go(rater, plan["raters"], name="rater")
    for n in range(2):
        crew.go(limiter, n, plan["limits"], name=f"limiter{n}")
    crew.go(dispatcher, plan["dispatches"], name="dispatcher")
    crew.join(what="dispatch")
    # everything is due: frames are as large as they may be
    dispatcher([[1000.0, "at", 0]])
    env.frame_queue.put(None)
    consumer.join(what="frame consumer")

    types = {}
    rates = {}
    for i in range(env.channel_registry.count()):
        item = env.channel_registry.get_item(i)
        types[i] = item.type.name
        rates[i] = item.rate
    per = {}
    for frame in frames:
        raw = c.wire(frame)
        try:
            got = w.decode(raw, types, plan["crc"])
        except w.Bad as exc:
            raise c.Violation("bad-frame", f"{exc} {raw.hex()}")
        check(got.app == app, "wrong-app-id", f"{got.app} != {app}")
        lib = env.decode_frame(raw, len(raw), env.app_id)
        check(lib is not None, "undecodable", raw.hex())
        compare(lib, got)
        per.setdefault(got.time, []).append(got)
    stamps = {}
    total = emits = 0
    for i, (call, ret, now, count) in enumerate(disp):
        stamp = time_to_int(now)
        mine = per.get(stamp, [])
        stamps[stamp] = 1
        total += 1
        check(count == len(mine), "frame-count",
              f"dispatch at {now} returned {count}, {len(mine)} frames seen")
        low = min(m[2] for m in mtus if m[1] < call)
        high = low
        for f in mine:
            check(f.size <= high, "oversized",
                  f"frame of {f.size} bytes, limit {high}")
        sent = {}
        for f in mine:
            if f.type == w.DATA:
                for ident, val in f.items:
                    check(ident not in sent, "emitted-twice",
                          f"channel {ident} twice at {now}")
                    sent[ident] = val
        emits += len(sent)
        sim.note(len(sent) * 31 + len(mine))
        for ch in chans:
            maybe = [r[2] for r in relevant(ch.rates, call, ret)]
            due = [now >= ch.last + r for r in maybe]
            if ch.id in sent:
                check(ch.call < ret, "emitted-unregistered", ch.name)
                check(any(due), "emitted-early",
                      f"{ch.name} at {now}, last {ch.last}, rates {maybe}")
                vals = [x[2] for x in relevant(ch.writes, call, ret)]
                got = sent[ch.id]
                check(any(same(got, v) for v in vals), "value-not-held",
                      f"{ch.name} ({ch.type}) emitted {got}, held {vals}")
                ch.last = now
            elif ch.ret < call:
                check(not all(due), "not-emitted",
                      f"{ch.name} due at {now}, last {ch.last}, "
                      f"rates {maybe}")
        for ident in sent:
            if ident not in by_id:
                check(plan["metrics"] is not None, "unknown-channel",
                      f"{ident}")
    for stamp in per:
        check(stamp in stamps, "wrong-time", f"frame time {stamp}")
    if plan["metrics"] is not None:
        check(env.get_metric("dispatch_count") == total, "dispatch-count",
              f"{env.get_metric('dispatch_count')} != {total}")
        check(env.get_metric("emits_captured") == emits, "emit-count",
              f"{env.get_metric('emits_captured')} != {emits}")
        check(env.get_metric("channel_count") == len(types), "channel-count",
              f"{env.get_metric('channel_count')} != {len(types)}")


def same(a, b):
    return a == b or (a != a and b != b)


def relevant(entries, call, ret):
    """Entries possibly in force during [call, ret] (one writer per list)."""
    out = []
    for e in entries:
        if e[1] is not None and e[1] < call:
            out = [e]  # superseded everything before
        elif e[0] <= ret:
            out.append(e)
    return out


def compare(lib, got):
    """The library's decoding against the oracle's."""
    head = lib.header
    check((head.app_id, int(head.type), head.timestamp, head.size)
          == (got.app, got.type, got.time, got.count), "header-mismatch",
          f"{head}")
    if got.type == w.DATA:
        items = [(x["id"], x["value"]) for x in lib.body["channels"]]
        names = [x["channel"] for x in lib.body["channels"]]
    else:
        items = [
            (x["id"], (x["previous"]["value"], x["previous"]["time"]),
             (x["current"]["value"], x["current"]["time"]))
            for x in lib.body["events"]
        ]
        names = [x["channel"] for x in lib.body["events"]]
    check(repr(items) == repr(got.items), "decode-mismatch",
          f"{items} != {got.items}")
    check(all(n is not None for n in names), "decode-mismatch", "channel")
    check(lib.footer.crc == got.crc, "decode-mismatch", "crc")
