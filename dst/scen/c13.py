"""C13: periodic tasks: rate, pausing, overruns and period changes."""

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["daemons", "control.0", "control.1", "control.2"]
RUNS = {"quick": 2000, "thorough": 60000}
REAL = "Daemon, DaemonBase, TimeKeeper, TelemetryDaemon, DaemonManager"

EPS = 0.004
NAP = 0.5       # how long a daemon sleeps without looking
POLL = 0.3


def gen(rng, tier):
    quiet = rng.random() < 0.6
    cfg = sched_cfg(rng)
    if quiet:
        cfg = {"strategy": "rw", "p": rng.choice((0.0, 0.01, 0.1)),
               "stall_p": 0.0, "tick": 1e-7, "instr": 0.0}
    cfg["tick"] = min(cfg["tick"], 2e-6)
    cfg["max_steps"] = 16_000_000
    daemons, control = [], []
    slow = quiet and rng.random() < 0.15
    for _ in range(rng.choice((1, 1, 2, 3))):
        rate = rng.choice((0.05, 0.1, 0.2, 1.2, 2.0 if slow else 0.1))
        busy = [rng.choice((0, 0, 0, 0.3, 0.7, 0.99, 1.0, 1.2, 2.6)) * rate
                for _ in range(rng.randint(1, 4))]
        daemons.append({
            "rate": rate, "busy": busy, "init": rng.choice((None, 0, 0.08)),
            "cb": rng.random() < 0.7, "kind": rng.choice(
                ("task", "task", "task", "telemetry")),
            "env": rng.random() < 0.7,
        })
        ops = []
        for _ in range(rng.randint(1, 6)):
            ops.append([rng.choice(("wait", "wait", "pause", "pause", "rate",
                                    "badrate", "restart", "stop", "pstop")),
                        rng.choice((0.3, 1.0, 1.0 if slow else 2.3,
                                    0.3 if slow else 5.1)),
                        rng.choice((0.03, 0.07, 0.15, 0.4, 0.8))])
        control.append(ops)
    return {"cfg": cfg, "quiet": quiet, "daemons": daemons,
            "control": control,
            "keeper": 0.05 if slow else rng.choice((0.005, 0.02, 0.05)),
            "scale": 0.1 if slow else rng.choice((1.0, 1.0, 0.5, 2.0, 0.0))}


class Rec:
    def __init__(self, spec):
        self.spec = spec
        self.runs = []      # [start, end, own start time, run number]
        self.marks = []     # (time, what, detail)
        self.over = []
        self.inits = []
        self.inside = 0
        self.paused = None  # runs seen since a pause returned
        self.idle = False
        self.entered = 0


def run(sim, plan):
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.synchronous import Daemon
    from vtelem.daemon.telemetry import TelemetryDaemon
    from vtelem.telemetry.environment import TelemetryEnvironment

    scale = plan["scale"]
    keeper = TimeKeeper("keeper", plan["keeper"], scale)

    class Log(TimeEntity):
        """Records when it is advanced."""

        log = None

        def set_time(self, time):
            super().set_time(time)
            if self.log is not None:
                self.log.append((sim.now, time))

    log = Log()
    keeper.add_slave(log)
    log.log = []
    env = TelemetryEnvironment(1500, metrics_rate=1.0, app_id_basis=0.5)
    recs = []
    eaters = c.Crew()
    for i, spec in enumerate(plan["daemons"]):
        rec = Rec(spec)
        recs.append(rec)

        def begin(rec):
            check(rec.inside == 0, "overlap", f"{rec.name}")
            rec.inside += 1
            check(not rec.idle, "run-after-stop",
                  f"{rec.name}: run began after stop had returned")
            check(rec.spec["init"] is None or len(rec.inits) == rec.entered,
                  "run-before-init", rec.name)
            if rec.paused is not None:
                rec.paused += 1
                # one may have been about to begin when the pause was asked
                check(rec.paused <= 1, "run-while-paused",
                      f"{rec.name}: {rec.paused} runs began while paused")
            rec.runs.append([sim.now, None, rec.daemon.get_time()])

        def finish(rec):
            rec.runs[-1][1] = sim.now
            rec.inside -= 1

        def task(*args, rec=rec, **kwargs):
            check(args == (7,) and kwargs == {"x": "y"}, "wrong-arguments",
                  f"{args} {kwargs}")
            begin(rec)
            busy = rec.spec["busy"]
            rec.busy = busy[len(rec.runs) % len(busy)]
            if rec.busy:
                c.sleep(rec.busy)
            finish(rec)

        def init(*args, rec=rec, **kwargs):
            check(args == (7,) and kwargs == {"x": "y"}, "wrong-arguments",
                  f"init: {args} {kwargs}")
            check(rec.inside == 0, "overlap", f"{rec.name}: init")
            if rec.spec["init"]:
                c.sleep(rec.spec["init"])
            rec.inits.append(sim.now)
            check(len(rec.inits) == rec.entered, "init-count", rec.name)

        def over(start, end, rate, metrics, rec=rec):
            rec.over.append((len(rec.runs) - 1, start, end, rate))
            _ = metrics

        name = f"p{i}"
        if spec["kind"] == "telemetry":
            class Telem(TelemetryDaemon):
                def dispatch_now(self, *args, rec=rec, **kwargs):
                    begin(rec)
                    res = super().dispatch_now(*args, **kwargs)
                    finish(rec)
                    return res

            spec["busy"] = [0]
            spec["init"] = None
            spec["cb"] = False
            daemon = Telem(name, 1500, spec["rate"], keeper, 0.3,
                           app_id_basis=0.5)
        else:
            class Task(Daemon):
                def run(self, *args, rec=rec, **kwargs):
                    rec.entered += 1
                    super().run(*args, **kwargs)

            daemon = Task(name, task, spec["rate"],
                            over if spec["cb"] else None,
                            env=env if spec["env"] else None,
                            time_keeper=keeper,
                            init=None if spec["init"] is None else init)
        rec.name = name
        rec.daemon = daemon
        if spec["kind"] == "telemetry":
            def consume(queue=daemon.frame_queue):
                while queue.get() is not None:
                    sim.probe("frames")

            eaters.go(consume, name=f"eat{i}")
        rec.rates = [(-1.0, spec["rate"])]
        rec.args = ((7,), {"x": "y"}) if spec["kind"] == "task" else ((), {})

    unit = 1.0 / (scale or 1.0)

    def boot(rec):
        rec.idle = False
        rec.marks.append(sim.now)
        check(rec.daemon.start(*rec.args[0], **rec.args[1]) is True,
              "not-started", rec.name)
        c.wait_until(lambda: rec.daemon.get_state_str() != "starting",
                     step_s=1e-3, what="running")
        rec.marks.append(sim.now)

    def halt(rec):
        rec.marks.append(sim.now)
        began = sim.now
        for _ in range(60):
            t0 = sim.now
            if rec.daemon.stop():
                break
            check(sim.now - t0 >= 1.99 or
                  rec.daemon.get_state_str() in ("idle", "stopping"),
                  "stop-failed", rec.name)
            c.sleep(POLL)
            if rec.daemon.get_state_str() == "idle" and not thread_of(rec):
                break
        else:
            check(False, "not-stopped", rec.name)
        check(rec.inside == 0, "stopped-inside-run", rec.name)
        rec.idle = True
        if plan["quiet"]:
            # however long its period is
            check(sim.now - began <= max(rec.spec["busy"])
                  + (rec.spec["init"] or 0) + NAP + POLL + EPS, "slow-stop",
                  f"{rec.name}: took {sim.now - began}")

    def thread_of(rec):
        return c.thread_alive(rec.daemon)

    def control(rec, ops):
        daemon = rec.daemon
        boot(rec)
        for kind, cycles, value in ops:
            period = max(max(r for _, r in rec.rates),
                         max(rec.spec["busy"])) * unit
            if kind == "wait":
                c.sleep(cycles * period)
            elif kind == "pause":
                if sim.now and daemon.pause():
                    rec.paused = 0
                    rec.marks.append(sim.now)
                    c.sleep(cycles * period)
                    rec.paused = None
                    n = len(rec.runs)
                    rec.marks.append(sim.now)
                    check(daemon.unpause() is True, "not-unpaused", rec.name)
                    t0 = sim.now
                    c.wait_until(lambda: len(rec.runs) > n, limit=200.0,
                                 step_s=1e-3, what="a run after unpausing")
                    if plan["quiet"]:
                        # asleep for at most a period or inside a last run
                        check(sim.now - t0 <= period + max(
                            rec.spec["busy"]) + (rec.spec["init"] or 0)
                            + 3 * EPS, "late-resume",
                            f"{rec.name}: first run {sim.now - t0:.3f} s "
                            f"after unpausing, period {period}")
                    rec.marks.append(sim.now)
                else:
                    check(False, "not-paused", daemon.get_state_str())
            elif kind == "rate":
                t0 = sim.now
                daemon.set_rate(value)
                check(daemon.get_rate() == value, "rate-not-set", rec.name)
                rec.rates.append((t0, value))
                c.sleep(cycles * period)
            elif kind == "badrate":
                was = daemon.get_rate()
                daemon.set_rate(-value if cycles > 1 else 0.0)
                check(daemon.get_rate() == was, "bad-rate-accepted",
                      f"{daemon.get_rate()}")
            elif kind == "pstop":
                # stopped while it's paused
                check(daemon.pause() is True, "not-paused", rec.name)
                rec.paused = 0
                c.sleep(max(rec.spec["busy"]) + (rec.spec["init"] or 0)
                        + cycles * 0.1)
                began = sim.now
                halt(rec)
                rec.paused = None
                late = [r[0] for r in rec.runs if r[0] > began + EPS]
                if plan["quiet"]:
                    # (one may have been about to look when it was stopped)
                    check(not late, "run-while-paused",
                          f"{rec.name}: stopped at {began}, ran at {late}")
                rec.marks.append(sim.now)
                boot(rec)
            elif kind == "stop":
                halt(rec)
                n = len(rec.runs)
                c.sleep(cycles * period)
                check(len(rec.runs) == n, "run-after-stop", rec.name)
                boot(rec)
                c.sleep(period)
            else:
                rec.marks.append(sim.now)
                if not daemon.restart(*rec.args[0], **rec.args[1]):
                    # did not end in time
                    c.wait_until(
                        lambda: daemon.get_state_str() == "idle",
                        limit=60.0, what="idle")
                    boot(rec)
                c.wait_until(lambda: daemon.get_state_str() != "starting",
                             step_s=1e-3, what="running")
                rec.marks.append(sim.now)
        c.sleep(daemon.get_rate() * unit * 2)
        halt(rec)

    t_keep = sim.now
    check(keeper.start(), "keeper", "")
    crew = c.Crew()
    for n, rec in enumerate(recs):
        crew.go(control, rec, plan["control"][n], name=f"ctl{n}")
    crew.join(limit=3000.0, what="controllers")
    for rec in recs:
        if rec.spec["kind"] == "telemetry":
            rec.daemon.frame_queue.put(None)
    eaters.join(what="frame consumers")
    for _ in range(20):
        if keeper.stop() or keeper.get_state_str() == "idle":
            break
    for rec in recs:
        evaluate(sim, plan, rec, unit)
    if plan["quiet"]:
        times = [t for t, _ in log.log]
        gaps = [b - a for a, b in zip(times, times[1:])]
        lo, hi = min(gaps), max(gaps)
        tick = plan["keeper"]
        check(lo >= tick - EPS / 2, "keeper-too-fast",
              f"advances {lo:.5f} s apart, period {tick}")
        check(hi <= tick + EPS, "keeper-too-slow",
              f"advances {hi:.5f} s apart, period {tick}")
        over = keeper.function["metrics_data"]["overruns"]
        check(over == 0, "keeper-overruns", f"{over} in {len(times)}")
        _ = t_keep


def evaluate(sim, plan, rec, unit):
    spec = rec.spec
    data = rec.daemon.function["metrics_data"]
    runs = rec.runs
    sim.note(len(runs))
    sim.probe("runs", len(runs))
    if spec["cb"]:
        check(data["overruns"] == len(rec.over), "overrun-count",
              f"{rec.name}: counted {data['overruns']}, "
              f"reported {len(rec.over)}")
        nums = [o[0] for o in rec.over]
        check(len(set(nums)) == len(nums), "overrun-twice", f"{nums}")
        for num, start, end, rate in rec.over:
            late = runs[num][2] - start
            check(late >= 0 and (late <= plan["keeper"] * plan["scale"] * 2
                                 + EPS or not plan["quiet"]),
                  "overrun-start",
                  f"{rec.name} run {num}: {start}, began {runs[num][2]}")
            check(end >= start and rate in [r for _, r in rec.rates],
                  "overrun-values", f"{start} {end} {rate}")
    if rec.daemon.env is not None:
        check(rec.daemon.env.get_metric(f"{rec.name}.overruns")
              == data["overruns"], "overrun-metric", rec.name)
    if not plan["quiet"]:
        return
    scale = plan["scale"]
    res = plan["keeper"]  # resolution of the time base, in clock time
    over = {o[0] for o in rec.over}
    overs = 0
    for num, (a, b) in enumerate(zip(runs, runs[1:])):
        if any(a[0] - EPS <= m <= b[0] + EPS for m in rec.marks):
            continue
        rates = in_force(rec.rates, a[0])
        took = a[1] - a[0]
        gap = b[0] - a[0]
        what = (f"{rec.name}: runs {num} and {num + 1} start {gap:.4f} s "
                f"apart, run time {took:.4f}, period "
                f"{[r * unit for r in rates]}, resolution {res}")
        # without a moving time base a run's time can't be measured
        used = took if scale else 0.0
        if len(rates) == 1:
            sim.probe("gaps")
            rate = rates[0] * unit
            check(gap >= max(rate - res, took) - EPS, "too-close", what)
            if scale:
                check(gap <= max(rate, took) + res + EPS, "too-far", what)
            else:
                check(gap <= rate + took + EPS, "too-far", what)
            if spec["cb"]:
                if used > rate + res + EPS:
                    check(num in over, "overrun-missed", what)
                if used < rate - res - EPS:
                    check(num not in over, "overrun-false", what)
            elif used > rate + res + EPS:
                overs += 1
        else:
            lo, hi = min(rates) * unit, max(rates) * unit
            check(gap >= max(lo - res, took) - EPS, "too-close", what)
            check(gap <= hi + took + res + EPS, "too-far", what)
    check(data["overruns"] >= overs, "overrun-missed",
          f"{rec.name}: {data['overruns']} < {overs}")


def in_force(rates, when):
    """The period a cycle beginning at this time uses (or one of two)."""
    cur = None
    out = []
    for t, rate in rates:
        if t < when - EPS:
            cur = rate
        elif t <= when + EPS:
            out.append(rate)
    return [cur] + out
