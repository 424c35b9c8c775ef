"""Makes every source line (or bytecode) of the code under test a yield point."""

import os
import random
import sys

from . import core, env


def enable(sim, cfg):
    """Instrument vtelem's code objects according to the plan."""
    mon = sys.monitoring
    ev = mon.events
    tool = env.TOOL
    mode = cfg.get("trace", "line")
    if mode == "none":
        return
    codes = env.code_objects()
    focus = cfg.get("focus")
    if focus:
        codes = [
            c for c in codes
            if any(f in c.co_filename for f in focus)
        ]
    mon.use_tool_id(tool, "dst")
    frac = cfg.get("instr", 0.0)
    rng = random.Random(f"{sim.seed}/trace")
    hot_frac = cfg.get("hot_frac", 0.0)
    hot_q = cfg.get("hot_q", 0.5)
    hot_max = cfg.get("hot_max", 0.5)
    hot_files = tuple("/" + f for f in cfg.get("hot_files", ()))
    hot_in = cfg.get("hot_in", 0.0)
    yield_point = sim.yield_point

    if hot_frac:
        hot = {}
        srng = sim.rng_sched

        def on_line(code, line):
            if not sim.active:
                return
            key = (id(code), line)
            val = hot.get(key)
            if val is None:
                part = hot_frac
                if hot_files and code.co_filename.endswith(hot_files):
                    part = hot_in
                val = hot[key] = rng.random() < part
            if val and srng.random() < hot_q:
                dur = round(
                    min(hot_max, 2e-5 * (10 ** (srng.random() * 4.5))), 7
                )
                sim.yield_stall(dur)
                return
            yield_point()
    else:

        def on_line(code, line):
            if sim.active:
                yield_point()

    cover = os.environ.get("DST_COVER")
    if cover:
        # development aid: which lines are reached (perturbs nothing else)
        frac, reached, inner = 0.0, set(), on_line

        def on_line(code, line):
            if sim.active:
                reached.add((code.co_filename, code.co_qualname, line))
            inner(code, line)

        def save():
            with open(f"{cover}/{os.getpid()}", "w") as out:
                out.writelines(f"{f}\t{q}\t{n}\n" for f, q, n in reached)

        sim.at_finish = save

    for code in codes:
        if frac and rng.random() < frac:
            mon.set_local_events(tool, code, ev.INSTRUCTION)
        else:
            mon.set_local_events(tool, code, ev.LINE)
    mon.register_callback(tool, ev.LINE, on_line)
    mon.register_callback(tool, ev.INSTRUCTION, on_line)
