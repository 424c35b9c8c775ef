"""C14: the time base: scaling, clock jumps, attaching and sleeping."""

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["scales", "attach", "jumps", "sleeps", "cycles"]
RUNS = {"quick": 3000, "thorough": 80000}
REAL = "TimeKeeper, TimeEntity, Daemon, DaemonBase, TelemetryEnvironment"


def gen(rng, tier):
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    scal = (0.0, 0.5, 1.0, 1.0, 2.0, 10.0, 0.1, -1.0, float("nan"))
    return {
        "cfg": cfg,
        "rate": rng.choice((0.005, 0.02, 0.1)),
        "first": rng.choice((0.0, 1.0, 1.0, 0.5, 3.0)),
        "base": rng.choice((0.0, 100.0, 1.7e9)),
        "scales": [[rng.choice((0, 0.003, 0.05, 0.3)), rng.choice(scal)]
                   for _ in range(rng.randint(0, 6))],
        "attach": [[rng.choice((0, 0.001, 0.04, 0.2)),
                    rng.choice(("plain", "plain", "daemon", "env"))]
                   for _ in range(rng.randint(0, 5))] + [
                       [0, "plain"]] * rng.choice((0, 0, 6)),
        "jumps": [[rng.choice((0.001, 0.03, 0.2)),
                   rng.choice((3600.0, -3600.0, 0.5, -0.5, -0.01))]
                  for _ in range(rng.choice((0, 0, 1, 2, 4)))],
        "sleeps": [[rng.choice((0, 0.02, 0.3)), rng.choice((0.0, 0.01, 0.2,
                                                            0.5))]
                   for _ in range(rng.randint(0, 4))],
        "cycles": [[rng.choice(("iter", "iter", "pause", "stop", "wait")),
                    rng.choice((0.001, 0.05, 0.4))]
                   for _ in range(rng.randint(1, 6))],
    }


def run(sim, plan):
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon import DaemonBase
    from vtelem.telemetry.environment import TelemetryEnvironment

    offset = [plan["base"]]
    t_start = sim.now
    jumped = [0, 0]     # backward jumps: count, last at (simulated)
    reads = []

    def clock():
        val = sim.now - t_start + offset[0]
        reads.append(val)
        return val

    slept = []

    def sleeper(amount):
        slept.append((sim.cur.id, amount))
        c.sleep(amount)

    keeper = TimeKeeper("keeper", plan["rate"], plan["first"], clock, sleeper)
    t_first = keeper.get_time()
    check(reads and reads[0] <= t_first <= reads[-1], "initial-time",
          f"{t_first} not in {reads}")
    t_begin = t_start + t_first - plan["base"]
    logs = []

    def logging(cls):
        class Logged(cls):
            """Records every time it is given."""

            def set_time(self, time):
                super().set_time(time)
                self.log.append((sim.now, time, jumped[0]))

            @property
            def log(self):
                return self.__dict__.setdefault("w_log", [])

        return Logged

    def attach(kind, n):
        if kind == "plain":
            obj = logging(TimeEntity)()
            before = keeper.get_time()
            keeper.add_slave(obj)
        elif kind == "daemon":
            before = keeper.get_time()
            obj = logging(DaemonBase)(f"d{n}", None, keeper)
        else:
            obj = logging(TelemetryEnvironment)(1500, app_id_basis=0.5)
            obj.log.clear()
            before = keeper.get_time()
            keeper.add_slave(obj)
        seen = obj.get_time()
        after = keeper.get_time()
        if not plan["jumps"]:
            check(before <= seen <= after, "attach-time",
                  f"{kind} attached between {before} and {after} sees {seen}")
        logs.append(obj)
        return obj

    master = attach("plain", 0)

    # the scale in force, as intervals of clock readings
    segs = []           # (reading before call, after call, new scale)
    scale_now = [plan["first"]]

    def scaler():
        for n, (pause, value) in enumerate(plan["scales"]):
            c.sleep(pause)
            was = offset[0]
            lo = sim.now
            keeper.scale(value)
            hi = sim.now
            if value >= 0.0:
                segs.append((lo, hi, value))
                scale_now[0] = value
            _ = n, was

    def attacher():
        for n, (pause, kind) in enumerate(plan["attach"]):
            c.sleep(pause)
            attach(kind, n + 1)

    jumps = []

    def jumper():
        for pause, amount in plan["jumps"]:
            c.sleep(pause)
            offset[0] += amount
            sim.fault("clock_jump")
            jumps.append((sim.now, amount))
            if amount < 0:
                jumped[0] += 1

    def napper():
        for pause, amount in plan["sleeps"]:
            c.sleep(pause)
            k = len(slept)
            me = sim.cur.id
            scales = {scale_now[0]}
            n_seg = len(segs)
            t0 = sim.now
            keeper.sleep(amount)
            took = sim.now - t0
            scales |= {s[2] for s in segs[max(0, n_seg - 1):]}
            scales.add(scale_now[0])
            # a change may be in progress while we look
            scales |= {v for _, v in plan["scales"] if v >= 0}
            own = sum(a for t, a in slept[k:] if t == me)
            if plan["scales"]:
                opts = [amount / (s or 1.0) for s in scales]
                check(any(abs(own - o) < 1e-9 + o * 1e-9 for o in opts) or
                      min(opts) - 1e-9 <= own <= max(opts) + 1e-9,
                      "sleep-length", f"{amount}: slept {own}, {opts}")
            else:
                want = amount / (plan["first"] or 1.0)
                check(abs(own - want) < 1e-9, "sleep-length",
                      f"{amount} at {plan['first']}: {own} != {want}")
            check(took >= own - 1e-9, "sleep-short", f"{took} < {own}")

    def cycles():
        check(keeper.start() is True, "not-started", "")
        c.wait_until(lambda: keeper.get_state_str() == "running",
                     step_s=1e-3, what="running keeper")
        for kind, pause in plan["cycles"]:
            if kind == "iter":
                keeper.iteration()
            elif kind == "pause":
                check(keeper.pause() is True, "not-paused", "")
                c.sleep(pause)
                check(keeper.unpause() is True, "not-unpaused", "")
            elif kind == "stop":
                halt()
                c.sleep(pause)
                check(keeper.start() is True, "not-started", "")
                c.wait_until(lambda: keeper.get_state_str() == "running",
                             step_s=1e-3, what="running keeper")
            c.sleep(pause)

    def halt():
        for _ in range(40):
            if keeper.stop():
                break
            c.wait_until(lambda: keeper.get_state_str() != "stopping",
                         limit=7300.0, what="stopped")
            if keeper.get_state_str() == "idle":
                break
        check(keeper.get_state_str() == "idle", "not-stopped",
              keeper.get_state_str())

    def monitor():
        last = keeper.get_time()
        back = jumped[0]
        while not done:
            now = keeper.get_time()
            if jumped[0] == back:
                check(now >= last - 1e-6, "backwards", f"{last} -> {now}")
            else:
                # count a jump once the keeper noticed it
                if all(t + 2 * plan["rate"] + 1.0 < sim.now
                       for t, a in jumps if a < 0):
                    back = jumped[0]
            last = now
            c.sleep(0.011)

    done = []
    eyes = c.Crew()
    if not any(a < 0 for _, a in plan["jumps"]):
        eyes.go(monitor, name="monitor")
    crew = c.Crew()
    crew.go(cycles, name="cycles")
    for fn in (scaler, attacher, jumper, napper):
        crew.go(fn, name=fn.__name__)
    crew.join(limit=9000.0, what="time keeper users")
    halt()
    done.append(1)
    eyes.join(what="monitor")

    # the clock stands still for what follows
    lo = sim.now
    keeper.iteration()
    hi = sim.now
    total = keeper.get_time()
    exp_lo, exp_hi = expected(plan, segs, jumps, t_begin, lo, hi)
    # the first reading happened while the keeper was built
    slack = abs(total) * 1e-12 + 1e-6
    got = total - t_first
    check(exp_lo - slack <= got <= exp_hi + slack, "wrong-advance",
          f"advanced {got}, expected {exp_lo} to {exp_hi}: scales {segs} from "
          f"{plan['first']}, jumps {jumps}, until {lo}..{hi}")
    for obj in logs:
        check(obj.get_time() == total, "out-of-step",
              f"{type(obj).__mro__[1].__name__}: {obj.get_time()} != {total}")
    ref = dedup([v for _, v, _ in master.log])
    sim.note(len(ref))
    sim.probe("advances", len(ref))
    for obj in logs:
        seen = dedup([v for _, v, _ in obj.log])
        # it may have been attached within an advance that was overtaken
        if seen and seen[0] not in ref:
            seen = seen[1:]
        check(seen == ref[len(ref) - len(seen):], "missed-advance",
              f"{type(obj).__mro__[1].__name__} saw {seen[:5]}..., of "
              f"{ref[-len(seen):][:5]}...")
    if not jumped[0]:
        check(all(a <= b for a, b in zip(ref, ref[1:])), "backwards",
              f"{ref}")
    # nothing changes without the clock
    for bad in (-0.5, float("nan")):
        keeper.scale(bad)
    was = keeper.get_time()
    rate = scale_now[0]
    c.sleep(1.0)
    mark = sim.now
    keeper.iteration()
    grown = keeper.get_time() - was
    slack = abs(total) * 1e-12 + 1e-6
    check((mark - hi) * rate - slack <= grown
          <= (sim.now - lo) * rate + slack, "wrong-scale",
          f"{mark - hi} to {sim.now - lo} s at {rate} advanced {grown}")
    check(all(o.get_time() == keeper.get_time() for o in logs),
          "out-of-step", "after the last advance")


def dedup(seq):
    out = []
    for v in seq:
        if not out or out[-1] != v:
            out.append(v)
    return out


def expected(plan, segs, jumps, start, lo, hi):
    """Bounds for the scaled time between start and [lo, hi]."""
    low = high = 0.0
    # pieces of simulated time and jumps with the scales that may be in force
    points = sorted({start, lo} | {s[0] for s in segs} | {s[1] for s in segs})
    for a, b in zip(points, points[1:]):
        opts = options(plan, segs, a, b)
        low += (b - a) * min(opts)
        high += (b - a) * max(opts)
    high += (hi - lo) * max(options(plan, segs, lo, hi))
    for t, amount in jumps:
        opts = options(plan, segs, t, t)
        vals = [amount * o for o in opts]
        low += min(vals)
        high += max(vals)
    return low, high


def options(plan, segs, a, b):
    cur = plan["first"]
    opts = set()
    for s_lo, s_hi, value in segs:
        if s_hi < a or s_hi <= a < b:
            cur = value
        elif s_lo < b or s_lo <= a:
            # the change may take effect at any point of the call
            opts.add(value)
    opts.add(cur)
    return opts
