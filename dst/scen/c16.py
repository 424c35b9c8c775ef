"""C16: state machines iterated by several threads, sharing states and env."""

from queue import Empty

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["threads", "steps", "edges"]
RUNS = {"quick": 3000, "thorough": 80000}
REAL = "StateMachine, State, ChannelGroup, TelemetryEnvironment"

HOOKS = ("yes", "yes", "yes", "yes", "no", "raise")


def gen(rng, tier):
    n_states = rng.randint(1, 4)
    n_mach = rng.choice((1, 1, 2))
    threads = []
    for _ in range(rng.randint(2, 4)):
        threads.append([
            [rng.choice(("run",) * 6 + ("data", "dispatch", "look")),
             rng.randrange(n_mach), rng.randrange(n_states),
             rng.choice(HOOKS), rng.choice(HOOKS),
             rng.choice(("go",) * 12 + ("raise", "unknown", "stay"))]
            for _ in range(rng.randint(1, 6))
        ])
    return {
        "cfg": sched_cfg(rng), "n_states": n_states, "n_mach": n_mach,
        "threads": threads, "env": rng.random() < 0.8,
        "shared": rng.random() < 0.5,
        "hooks": [[rng.random() < 0.8, rng.random() < 0.8, rng.random() < 0.9]
                  for _ in range(n_states)],
        "initial": rng.randrange(n_states),
        "slow": rng.random() < 0.3,
    }


class HookError(Exception):
    """Raised by hooks."""


def run(sim, plan):
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = None
    if plan["env"]:
        env = TelemetryEnvironment(1500, init_time=1.0, metrics_rate=1.0,
                                   app_id_basis=0.5)
    log = []        # (machine, token, event, state, other state)
    n = plan["n_states"]
    mach_of = {}    # id of a machine's data -> index

    def outcome(kind):
        if kind == "raise":
            raise HookError()
        return kind == "yes"

    def who(data):
        return data["machine"]

    def busy():
        if plan["slow"]:
            c.sleep(0.01)
        else:
            c.step()

    def make(i, label):
        has_enter, has_leave, has_run = plan["hooks"][i]
        name = f"{label}s{i}"

        def runner(data):
            req = data["req"]
            log.append((who(data), data["token"], "run", i, None))
            busy()
            check(data["req"] is req, "interleaved", "data changed in run")
            if req[5] == "raise":
                raise HookError()
            if req[5] == "unknown":
                return "nosuchstate"
            if req[5] == "stay":
                return name
            return f"{label}s{req[2]}"

        def entering(prev, data):
            if data.get("token") is None:
                return True
            req = data["req"]
            log.append((who(data), data["token"], "enter", i, int(prev[-1])))
            busy()
            check(data["req"] is req, "interleaved", "data changed in enter")
            return outcome(req[4])

        def leaving(nxt, data):
            req = data["req"]
            log.append((who(data), data["token"], "leave", i, int(nxt[-1])))
            busy()
            check(data["req"] is req, "interleaved", "data changed in leave")
            return outcome(req[3])

        return State(name, runner if has_run else None,
                     entering if has_enter else None,
                     leaving if has_leave else None, env)

    shared = [make(i, "") for i in range(n)]
    machines = []
    sets = []
    for m in range(plan["n_mach"]):
        states = shared
        if not plan["shared"] and m:
            states = [make(i, f"m{m}") for i in range(n)]
        sets.append(states)
        machines.append(StateMachine(
            f"mach{m}", states, states[plan["initial"]], {"machine": m}, env,
        ))
        del mach_of
        mach_of = {}

    done = []           # (machine, token, req, result, order stamps)
    stamp = [0]

    def tick():
        stamp[0] += 1
        return stamp[0]

    def worker(w, ops):
        for k, req in enumerate(ops):
            token = (w, k)
            mach = machines[req[1]]
            if req[0] == "run":
                t0 = tick()
                try:
                    got = mach.run({"token": token, "req": req})
                    res = tuple(int(x.name[-1]) for x in got)
                    own = all(any(x is s for s in sets[req[1]]) for x in got)
                    check(own, "foreign-state", f"{[x.name for x in got]}")
                except HookError:
                    res = "hook"
                except AssertionError as exc:
                    check(req[5] == "unknown", "run-failed", repr(exc))
                    res = "unknown"
                done.append((req[1], token, req, res, t0, tick()))
            elif req[0] == "data":
                with mach.data() as data:
                    mark = len([x for x in log if x[0] == req[1]])
                    was = data["token"]
                    data["seen"] = token
                    busy()
                    check(data["seen"] == token and data["token"] == was,
                          "data-not-exclusive", f"{data}")
                    check(mark == len([x for x in log if x[0] == req[1]]),
                          "data-not-exclusive", "hooks ran meanwhile")
            elif req[0] == "dispatch" and env is not None:
                env.dispatch(env.get_time(), False)
                try:
                    while True:
                        env.frame_queue.get(False)
                except Empty:
                    pass
            else:
                check(mach.current_state in [s.name for s in sets[req[1]]],
                      "bad-state", mach.current_state)

    crew = c.Crew()
    for w, ops in enumerate(plan["threads"]):
        crew.go(worker, w, ops, name=f"w{w}")
    crew.join(what="iterations")
    sim.probe("iterations", len(done))

    counts = {}

    def count(who_, what, by=1):
        counts[(who_, what)] = counts.get((who_, what), 0) + by

    for states in sets[:1] if plan["shared"] else sets:
        for i, state in enumerate(states):
            for what in ("enter_attempts", "enter_successes", "exit_attempts",
                         "exit_successes", "iterations"):
                count(state.name, what, 0)
    for m in range(plan["n_mach"]):
        name = sets[m][plan["initial"]].name
        count(name, "enter_attempts")
        count(name, "enter_successes")

    for m, mach in enumerate(machines):
        own = {d[1]: d for d in done if d[0] == m}
        events = [x for x in log if x[0] == m]
        # iterations are contiguous
        groups = []
        for ev in events:
            if not groups or groups[-1][0] != ev[1]:
                groups.append((ev[1], []))
            groups[-1][1].append(ev[2:])
        tokens = [g[0] for g in groups]
        check(len(set(tokens)) == len(tokens), "interleaved",
              f"iterations overlap: {tokens}")
        seq = order(groups, own, plan, m)
        check(seq is not None, "not-linearizable",
              f"machine {m}: no order of the iterations explains the states "
              f"from {plan['initial']} to {mach.current_state}: "
              f"{[(g[0], g[1], own[g[0]][3]) for g in groups]} and silent "
              f"{[d[1:4] for t, d in own.items() if t not in tokens]}")
        cur, tally = seq
        check(mach.current_state == sets[m][cur].name, "wrong-state",
              f"{mach.current_state} != {cur}")
        for what in ("enter_fails", "exit_fails", "transitions",
                     "iterations"):
            want = tally.get(what, 0)
            if env is not None:
                got = env.get_metric(f"machine.mach{m}.{what}") if (
                    env.has_metric(f"machine.mach{m}.{what}")
                ) else value(env, f"machine.mach{m}.{what}")
                check(got == want, "wrong-count",
                      f"machine {m} {what}: {got}, not {want}")
        for (i, what), val in tally["states"].items():
            count(sets[m][i].name, what, val)
    if env is not None:
        for (name, what), want in sorted(counts.items()):
            got = value(env, f"state.{name}.{what}")
            check(got == want, "wrong-count", f"{name} {what}: {got}, "
                  f"not {want}")


def value(env, name):
    return env.get_value(env.channel_registry.get_id(name))


def model(cur, req, plan, tally):
    """One iteration from state 'cur': (events, result, next state)."""
    has = plan["hooks"]
    st = tally["states"]
    ev = []

    def add(i, what, by=1):
        st[(i, what)] = st.get((i, what), 0) + by

    target = cur
    if has[cur][2]:
        ev.append(("run", cur, None))
        if req[5] == "raise":
            return ev, "hook", cur
        if req[5] == "go":
            target = req[2]
    add(cur, "iterations")
    if has[cur][2] and req[5] == "unknown":
        return ev, "unknown", cur
    nxt = cur
    if target != cur:
        ok = True
        if has[cur][1]:
            ev.append(("leave", cur, target))
            if req[3] == "raise":
                return ev, "hook", cur
            ok = req[3] == "yes"
        add(cur, "exit_attempts")
        add(cur, "exit_successes", int(ok))
        if not ok:
            tally["exit_fails"] = tally.get("exit_fails", 0) + 1
        else:
            if has[target][0]:
                ev.append(("enter", target, cur))
                if req[4] == "raise":
                    return ev, "hook", cur
                ok = req[4] == "yes"
            add(target, "enter_attempts")
            add(target, "enter_successes", int(ok))
            if ok:
                nxt = target
                tally["transitions"] = tally.get("transitions", 0) + 1
            else:
                tally["enter_fails"] = tally.get("enter_fails", 0) + 1
    tally["iterations"] = tally.get("iterations", 0) + 1
    return ev, (cur, nxt), nxt


def order(groups, own, plan, m):
    """
    The logged iterations happen in log order; iterations without any event
    (states without code stay where they are) fit anywhere in real-time order.
    """
    tally = {"states": {}}
    silent = [d for t, d in own.items() if t not in [g[0] for g in groups]]
    cur = plan["initial"]
    left = list(silent)
    done_at = 0
    for token, events in groups:
        d = own[token]
        # real time: an earlier iteration may not begin after this one ended
        check(d[5] > done_at, "not-linearizable",
              f"iteration {token} ended before its predecessor began")
        done_at = max(done_at, d[4])
        ev, res, nxt = model(cur, d[2], plan, tally)
        if ev != events or res != d[3]:
            return None
        cur = nxt
    # silent iterations never leave their state
    for d in left:
        if d[3] not in [(i, i) for i in range(plan["n_states"])]:
            return None
        i = d[3][0]
        if plan["hooks"][i][2]:
            return None
        tally["states"][(i, "iterations")] = (
            tally["states"].get((i, "iterations"), 0) + 1
        )
        tally["iterations"] = tally.get("iterations", 0) + 1
    # once such a state is reached nothing else happens
    if left and not plan["hooks"][cur][2]:
        if any(d[3][0] != cur for d in left):
            return None
    return cur, tally
