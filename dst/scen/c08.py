"""C08: the message cache survives crashes and disk errors."""

import errno
import os
import shutil
import tempfile

from .. import disk as dsk
from ..core import SimCrash
from ..child import sched_cfg
from .c07 import build, gen_messages, room
from .common import check

SHRINK = ["sessions", "messages"]
RUNS = {"quick": 4000, "thorough": 150000}
REAL = ("MessageCache and DataCache with their real files, MessageFramer, "
        "decode_frame; file operations go through a fault-injecting layer")
ERRS = (errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE)


def gen(rng, tier):
    msgs = gen_messages(rng, 4, 300)
    frames = []
    for i, msg in enumerate(msgs):
        total = max(1, -(-msg[1][1] // room(msg)))
        frames += [[i, k] for k in range(total)]
    sessions = []
    for _ in range(rng.randint(1, 4)):
        picks = [f for f in frames if rng.random() < rng.choice(
            (0.3, 0.7, 1.0))]
        if rng.random() < 0.6:
            rng.shuffle(picks)
        ops = [["in", *f] for f in picks]
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            ops.insert(rng.randint(0, len(ops)), ["save"])
        if rng.random() < 0.08:
            ops.insert(rng.randint(0, len(ops)), ["clean"])
        if rng.random() < 0.3:
            # fragments arrive again within the session
            ops += [["in", *f] for f in rng.sample(frames, len(frames) // 2)]
        est = 12 + 3 * len(picks) + 30 * sum(o[0] == "save" for o in ops)
        faults = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            at = rng.randrange(est)
            kind = rng.choice(("crash", "crash", "crash", "err", "full",
                               "short"))
            if kind == "err":
                faults.append([at, "err", rng.choice(ERRS), rng.random()])
            else:
                faults.append([at, kind, rng.random()])
        power = []
        if rng.random() < 0.25:
            # the machine stops: contents of new files may never get there
            power = [[rng.randrange(64), rng.choice(("empty", "gone", "cut"))]
                     for _ in range(rng.randint(1, 4))]
        sessions.append({"ops": ops, "faults": faults, "power": power})
    return {"cfg": sched_cfg(rng, trace="none"), "messages": msgs,
            "sessions": sessions}


def run(sim, plan):
    from vtelem.message.cache import MessageCache
    from vtelem.message.framer import MessageFramer
    from vtelem.telemetry.environment import TelemetryEnvironment
    from vtelem.types.frame import MessageType

    root = tempfile.mkdtemp(prefix="dst08-")
    sim.cleanup = lambda: shutil.rmtree(root, ignore_errors=True)
    where = os.path.join(root, "cache")
    sent = build(sim, plan, TelemetryEnvironment, MessageFramer, MessageType)
    env = TelemetryEnvironment(1500, metrics_rate=None, app_id_basis=0.5)
    known = {}
    for msg in sent:
        known.setdefault((msg["type"], msg["crc"]), []).append(msg)
    disk = dsk.Disk(root)
    dsk.set_disk(disk)
    calls = []

    def called(mtype, number, data):
        key = (int(mtype), None)
        match = [k for k, v in known.items() if k[0] == key[0]
                 and v[0]["data"] == bytes(data)]
        check(len(match) == 1, "wrong-callback",
              f"type {int(mtype)}: {bytes(data)[:40]!r}")
        check(number in {x["num"] for x in known[match[0]]}, "wrong-number",
              f"{number}")
        calls.append(match[0])

    def audit(cache, must, when):
        """Every complete message is intact; those in must are complete."""
        seen = set()
        for t in MessageType:
            for crc in cache.complete(t):
                key = (int(t), crc)
                check(key in known, "wrong-complete", f"{when}: {key}")
                got = cache.content(t, crc)
                check(got is not None
                      and bytes(got[1]) == known[key][0]["data"],
                      "wrong-content", f"{when}: {key}")
                check(got[0] in {x["num"] for x in known[key]},
                      "wrong-number", f"{when}: {key} {got[0]}")
                seen.add(key)
        for key in known:
            if key not in seen:
                check(cache.content(MessageType(key[0]), key[1]) is None,
                      "early-content", f"{when}: {key}")
        check(must <= seen, "lost-message",
              f"{when}: {must - seen} were complete when last saved")
        return seen

    saved = set()
    crashes = [0]

    def crashed():
        """Did the simulated process die since the last question?"""
        old, crashes[0] = crashes[0], sum(
            v for k, v in sim.faults.items() if k.startswith("crash"))
        return crashes[0] > old

    def reopen(when, faulty):
        """Open the cache again; None when a fault interrupted it."""
        calls.clear()
        before = sum(sim.faults.values())
        try:
            cache = MessageCache(where, {t: [called] for t in MessageType})
        except SimCrash:
            disk.epoch += 1
            disk.plan = {}
            disk.sticky = None
            return None
        except Exception:
            # only an error injected into the reopening itself may end it
            if not faulty or sum(sim.faults.values()) == before:
                raise
            disk.plan = {}
            disk.sticky = None
            return None
        crashed()
        if sum(sim.faults.values()) == before:
            seen = audit(cache, saved, when)
            check(sorted(calls) == sorted(seen), "wrong-callback",
                  f"{when}: called {calls}, complete {seen}")
        return cache

    def power_lost(losses):
        """Fragments written since the last start are lost, at random.

        (A file that replaces another one is on the disk before it does.)
        Returns the messages they belong to."""
        out = set()
        new = [x for x in disk.written if os.path.exists(x)
               and x.startswith(where + "_fragments" + os.sep)]
        for pick, how in losses if new else ():
            path = new[pick % len(new)]
            parts = os.path.relpath(path, where + "_fragments").split(os.sep)
            out.add((int(parts[0]), int(parts[1])))
            if not os.path.exists(path):
                continue
            sim.fault("power_" + how)
            if how == "gone":
                dsk._os["remove"](path)
            else:
                size = os.path.getsize(path)
                dsk._os["truncate"](path, 0 if how == "empty" else size // 2)
        return out

    def deliver(cache, m, k):
        msg = sent[m]
        wire = msg["wires"][k % msg["total"]][1]
        cache.ingest(env.decode_frame(wire, len(wire)))

    for num, session in enumerate(plan["sessions"]):
        disk.plan = {disk.ops + f[0]: tuple(f[1:])
                     for f in session["faults"]}
        disk.sticky = None
        cache = None
        while cache is None:
            cache = reopen(f"session {num}", True)
        try:
            for op in session["ops"]:
                try:
                    before = sum(sim.faults.values())
                    if op[0] == "in":
                        if op[1] < len(sent):
                            deliver(cache, op[1], op[2])
                    elif op[0] == "save":
                        state = {(int(t), c) for t in MessageType
                                 for c in cache.complete(t)}
                        cache.write()
                        saved = state
                    else:
                        saved = set()
                        cache.clean()
                except Exception as exc:
                    # (the YAML library may mask the error it was given)
                    if sum(sim.faults.values()) == before:
                        raise
                    if crashed():
                        raise SimCrash() from None
                    check(op[0] == "save" or isinstance(exc, OSError),
                          "raised", f"{op}: {exc!r}")
                    if op[0] == "clean":
                        raise SimCrash() from None
                    # space becomes available again
                    if op[0] == "save":
                        disk.sticky = None
            audit(cache, set(), f"end of session {num}")
        except SimCrash:
            disk.epoch += 1
            saved -= power_lost(session.get("power", ()))
        disk.written.clear()
        sim.note(disk.ops * 31 + len(saved))
        sim.probe("session")
        del cache
    disk.plan = {}
    disk.sticky = None
    cache = reopen("last", False)
    # redelivery completes everything, also after one more reopen
    order = list(range(len(sent)))
    for m in order:
        for k in range(sent[m]["total"]):
            deliver(cache, m, k)
    seen = audit(cache, set(known), "after redelivery")
    check(seen == set(known), "not-complete", f"{set(known) - seen}")
    cache.write()
    saved = set(known)
    reopen("after the last save", False)
    sim.note(len(seen))
