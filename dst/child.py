"""Executes one simulated run in a forked process and reports its outcome."""

import gc
import json
import os
import random
import sys
import traceback

from . import core, net, trace
from .core import Sim, SimCrash, SimError, Violation, short_tb
from .focus import FOCUS


def dumps(obj):
    return json.dumps(obj, sort_keys=True, default=repr)


def signature(exc):
    """Where an unexpected exception comes from: type and vtelem function."""
    place = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if "/vtelem/" in fr.filename:
            place = fr.filename.rsplit("/vtelem/", 1)[1] + ":" + fr.name
    return f"{type(exc).__name__}@{place}"


def execute(mod, seed, plan, decisions, fd, want_rec):
    """Run one simulation; writes the result to fd and exits the process."""
    gc.disable()
    random.seed(seed)
    sim = Sim(seed, plan.get("cfg", {}), decisions)
    core.set_sim(sim)
    network = net.Net(plan.get("net", {}))
    net.set_net(network)
    done = []

    def finish(status, msg, sig=None):
        if done:
            os._exit(0)
        done.append(1)
        sim.active = False
        if hasattr(sim, "at_finish"):
            sim.at_finish()
        out = {
            "status": status, "sig": sig or status, "msg": msg,
            "hash": sim.hash, "steps": sim.step, "switches": sim.switches,
            "now": sim.now, "faults": sim.faults, "probes": sim.probes,
            "stalls": sim.stalls, "threads": len(sim.threads),
        }
        if want_rec or status != "ok":
            out["rec"] = sim.rec
        data = dumps(out).encode()
        while data:
            data = data[os.write(fd, data):]
        cleanup = getattr(sim, "cleanup", None)
        if cleanup is not None:
            try:
                cleanup()
            except BaseException:
                pass
        os._exit(0)

    def ended(status, msg):
        """The scheduler ended the run: prefer the root cause."""
        try:
            check_residue(sim, mod)
        except Violation as exc:
            finish("violation", exc.msg + f" // {status}: {msg}", exc.sig)
        except SimError as exc:
            finish("simerror", short_tb(exc))
        finish(status, msg)

    sim.finish_cb = ended
    try:
        sim.adopt_main()
        trace.enable(sim, plan.get("cfg", {}))
        mod.run(sim, plan)
        sim.active = False
        check_residue(sim, mod)
        finish("ok", "")
    except Violation as exc:
        sim.active = False
        if exc.sig == "no-progress":
            try:
                check_residue(sim, mod)
            except Violation as other:
                if other is not exc:
                    finish("violation", other.msg + " // " + exc.msg,
                           other.sig)
            except SimError as other:
                finish("simerror", short_tb(other))
        finish("violation", exc.msg, exc.sig)
    except SimError as exc:
        finish("simerror", short_tb(exc))
    except SimCrash:
        finish("simerror", "crash escaped the scenario")
    except core.Abort:
        finish("simerror", "abort escaped")
    except BaseException as exc:
        sim.active = False
        try:
            check_residue(sim, mod)
        except Violation as other:
            finish("violation", other.msg + " // main: " + short_tb(exc),
                   other.sig)
        finish("violation", short_tb(exc), "raised:" + signature(exc))


def check_residue(sim, mod):
    """Exceptions that ended a thread, or that a framework caught."""
    for name, exc in sim.uncaught:
        if isinstance(exc, Violation):
            raise exc
        if isinstance(exc, SimError):
            raise exc
    ok = getattr(mod, "allow_uncaught", None)
    for name, exc in sim.uncaught:
        if ok is None or not ok(sim, name, exc):
            raise Violation(
                "thread-died:" + signature(exc),
                f"thread {name!r} ended by {short_tb(exc)}",
            )
    ok = getattr(mod, "allow_swallowed", None)
    for where, exc in sim.swallowed:
        if isinstance(exc, SimError):
            raise exc
        if ok is None or not ok(sim, where, exc):
            raise Violation(
                "handler-failed:" + (signature(exc) if exc else str(where)),
                f"{where}: {short_tb(exc) if exc else None}",
            )


def plan_for(mod, base, index, tier):
    """The plan of run number index."""
    seed = f"{base}/{index}"
    rng = random.Random(seed)
    if hasattr(mod, "gen_indexed"):
        plan = mod.gen_indexed(rng, index, tier)
    else:
        plan = mod.gen(rng, tier)
    files = FOCUS.get(mod.__name__.rsplit(".", 1)[-1].upper())
    cfg = plan.get("cfg", {})
    rng = random.Random(seed + "/focus")
    if files and cfg.get("strategy") == "hot" and rng.random() < 0.65:
        # stall mostly within one of the property's own files
        cfg["hot_files"] = [rng.choice(files)]
        cfg["hot_in"] = rng.choice((0.05, 0.2, 0.5))
    if ((cfg.get("strategy") == "hot" or cfg.get("stall_p"))
            and rng.random() < 0.35):
        # stall between operations that each hold a lock
        cfg["rel"] = [rng.choice((0.02, 0.1, 0.3)), rng.choice((0.2, 1.0)),
                      rng.choice((0.001, 0.05, 0.4))]
    return seed, plan


def sched_cfg(rng, **extra):
    """Draw a scheduling strategy."""
    cfg = {}
    kind = rng.choice(("rw", "rw", "pct", "hot", "hot", "hot"))
    cfg["tick"] = rng.choice((1e-7, 2e-6, 2e-6, 2e-5))
    if kind == "rw":
        cfg["strategy"] = "rw"
        cfg["p"] = rng.choice((0.0, 0.002, 0.01, 0.05, 0.2, 0.5))
        cfg["stall_p"] = rng.choice((0.0, 0.0, 0.1, 0.5))
    elif kind == "pct":
        cfg["strategy"] = "pct"
        cfg["depth"] = rng.randint(1, 6)
        cfg["est_steps"] = int(10 ** rng.uniform(2.5, 4.5))
        cfg["stall_p"] = rng.choice((0.0, 0.5))
    else:
        cfg["strategy"] = "hot"
        cfg["p"] = rng.choice((0.0, 0.002, 0.02, 0.1))
        cfg["stall_p"] = 0.0
        cfg["hot_frac"] = rng.choice((0.003, 0.01, 0.03, 0.1))
        cfg["hot_q"] = rng.choice((0.1, 0.5, 1.0))
        cfg["hot_max"] = rng.choice((0.001, 0.05, 0.4))
    cfg["instr"] = rng.choice((0.0, 0.0, 0.0, 0.1, 0.5))
    cfg.update(extra)
    return cfg


_ = sys
