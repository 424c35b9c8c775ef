"""C11: recorded files replay exactly the completely written frames."""

import errno
import os
import shutil
import struct
import tempfile
from pathlib import Path
from queue import Queue

from .. import disk as dsk
from ..core import SimCrash
from ..child import sched_cfg
from . import common as c
from .c09 import drain
from .common import check
from .frames import Maker, gen_spec, key, make_env, match

SHRINK = ["sessions", "reads"]
RUNS = {"quick": 2000, "thorough": 50000}
REAL = ("StreamWriter.add_file with real buffered files on a fault-injecting "
        "disk layer, FileClient, FrameProcessor, decode_frame, DaemonBase")


def gen(rng, tier):
    sessions = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        bad = rng.choice((0, 0, 0.3))
        fault = rng.choice((None, None, None, "crash", "kill", "full", "err",
                            "short", "cut"))
        sessions.append({
            "frames": [[gen_spec(rng, bad, rng.choice((3, 20, 100))),
                        rng.choice((0, 0, 0, 1e-4, 0.01))]
                       for _ in range(rng.randint(0, 14))],
            "flush": rng.random() < 0.5,
            "fault": fault, "at": rng.randrange(40), "frac": rng.random(),
            "cut": rng.randrange(10**6),
            "live": rng.random() < 0.4,
            "append": rng.random() < 0.85,
        })
    reads = []
    for _ in range(rng.randint(1, 5)):
        reads.append({
            "max": rng.choice((None, None, 0, 1, 3, rng.randint(1, 20))),
            "new": rng.random() < 0.5,
            "stop": rng.choice((None, None, None, 0, 1e-4, 1e-3)),
        })
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    return {"cfg": cfg, "sessions": sessions, "reads": reads,
            "mtu": rng.choice((300, 1400, 9000)),
            "slow": rng.random() < 0.3}


class Sent:
    """A frame as the writer takes it."""

    def __init__(self, raw, want):
        self.bytes = raw
        self.want = want

    @property
    def raw(self):
        return self.bytes, len(self.bytes)

    def with_size_header(self, frame_size=None):
        if frame_size is not None:
            frame_size.set(len(self.bytes))
        return (struct.pack(">I", len(self.bytes)) + self.bytes,
                len(self.bytes) + 4)


def allow_uncaught(sim, name, exc):
    return isinstance(exc, SimCrash)


class Reader:
    """Reads the file with clients that continue from each other."""

    def __init__(self, sim, env, maker, path, mtu):
        self.sim, self.env, self.maker = sim, env, maker
        self.path, self.mtu = path, mtu
        self.client = None
        self.index = 0
        self.got = []  # everything delivered since the beginning
        self.queue = Queue()
        self.limit = None
        self.mine = 0

    def run(self, spec, live=False):
        """One run of a client; returns True if it reached the end."""
        from vtelem.client.file import FileClient, FileDecodeTask
        from vtelem.daemon import DaemonState

        if self.client is None or spec["new"]:
            self.client = FileClient(
                FileDecodeTask(self.path, self.index, spec["max"]),
                self.queue, self.env.channel_registry, self.env.app_id,
                self.env, self.mtu)
            self.limit = spec["max"]
            self.mine = 0
        client = self.client
        size = os.path.getsize(self.path)
        check(client.start(), "start-failed", "file client")
        if spec["stop"] is not None:
            c.sleep(spec["stop"])
            if client.stop():
                self.sim.probe("stopped_midway")
        c.wait_until(lambda: client.state == DaemonState.IDLE, limit=100.0,
                     what="end of a file client")
        worker = client.thread
        if worker is not None:
            worker.join(30.0)
        out = drain(self.queue)
        ended = out.count(None)
        check(ended <= 1 and (not ended or out[-1] is None), "wrong-marker",
              f"delivered {[key(f) for f in out]}")
        if ended:
            out.pop()
        self.mine += len(out)
        if self.limit is not None:
            check(self.mine <= self.limit, "over-limit",
                  f"{self.mine} frames with a limit of {self.limit}")
        full = self.limit is not None and self.mine >= self.limit
        check(ended or full or spec["stop"] is not None, "wrong-marker",
              f"no end marker: limit {self.limit}, {self.mine} frames")
        self.got += out
        self.index = client.task.byte_index
        check(client.task.path == self.path
              and 0 <= self.index <= os.path.getsize(self.path), "bad-index",
              f"{client.task}")
        if not live and ended:
            self.compare(size, "at the end")
        return bool(ended)

    def compare(self, size, what):
        """Delivered so far == the complete frames of the file's content."""
        with dsk._open(self.path, "rb") as fd:
            data = fd.read()[:size]
        frames, rest = c.split_frames(data, what, True)
        want = [self.meaning[f] for f in frames]
        want = [w for w in want if w is not None]
        check(len(want) == len(self.got), "wrong-frames",
              f"{what}: delivered {[key(f) for f in self.got]}, the file has "
              f"{[(w['time'], w['type'], w['size']) for w in want]} and "
              f"{len(rest)} bytes of an incomplete frame")
        for k, (frame, exp) in enumerate(zip(self.got, want)):
            match(frame, exp, f"{what} frame {k}")
        check(self.index <= len(data) - len(rest), "bad-index",
              f"{what}: index {self.index}, complete up to "
              f"{len(data) - len(rest)}")


def run(sim, plan):
    from vtelem.daemon import DaemonState
    from vtelem.stream.writer import default_writer

    root = tempfile.mkdtemp(prefix="dst11-")
    sim.cleanup = lambda: shutil.rmtree(root, ignore_errors=True)
    path = Path(root) / "rec.vtelem"
    disk = dsk.Disk(root)
    dsk.set_disk(disk)
    env = make_env(metrics=1.0)
    maker = Maker(env.channel_registry)
    reader = Reader(sim, env, maker, path, plan["mtu"])
    reader.meaning = {}
    recorded = []  # frames handed over since the file was begun
    base = 0
    files = 0
    torn = False
    for n, sess in enumerate(plan["sessions"]):
        what = f"session {n}"
        append = sess["append"] and not torn
        if not append or n == 0:
            if path.exists():
                files += 1
                path = Path(root) / f"rec{files}.vtelem"
            recorded = []
            reader = Reader(sim, env, maker, path, plan["mtu"])
            base = 0
        start = base
        frames = []
        for spec, pause in sess["frames"]:
            raw, want = maker.build(spec)
            if len(raw) <= plan["mtu"]:
                frames.append((Sent(raw, want), pause))
        reader.meaning = {f.bytes: f.want for f in recorded}
        reader.meaning.update({f.bytes: f.want for f, _ in frames})
        writer, queue = default_writer(f"writer{n}", env=env)
        check(writer.start(), "start-failed", "writer")
        fault = sess["fault"]
        if fault in ("crash", "full", "err", "short"):
            at = disk.ops + 1 + sess["at"]
            disk.plan[at] = {
                "crash": ("crash", sess["frac"]),
                "full": ("full", sess["frac"]),
                "err": ("err", errno.EIO, sess["frac"]),
                "short": ("short", sess["frac"]),
            }[fault]
        live = sess["live"] and fault in (None, "cut", "short")
        crew = c.Crew()
        done = [False]
        dead = False

        def crashed():
            return any(k.startswith("crash") for k in sim.faults) \
                and sim.faults != {} and crash_count() > seen[0]

        def crash_count():
            return sum(v for k, v in sim.faults.items()
                       if k.startswith("crash"))

        seen = [crash_count()]

        def follow(reader=reader, done=done):
            """Reads while the file is being written."""
            k = 0
            while not done[0] and k < 6:
                if path.exists():
                    reader.run({"max": None, "new": k % 2 == 0,
                                "stop": None}, live=True)
                k += 1
                c.sleep(0.003)

        try:
            with writer.add_file(path, flush=sess["flush"], append=append):
                if live:
                    crew.go(follow, name="reader")
                for frame, pause in frames:
                    queue.put(frame)
                    if pause:
                        c.sleep(pause)
                if fault == "kill":
                    c.sleep(sess["frac"] * 1e-3)
                    sim.fault("crash_kill")
                    disk.epoch += 1
                    raise SimCrash()
                if not c.poll(lambda: queue.unfinished_tasks == 0 or
                              crashed(), limit=60.0, step_s=1e-3):
                    check(False, "no-progress", f"{what}: frames not written")
                if crashed():
                    raise SimCrash()
                if sess["flush"] and fault is None:
                    check(os.path.getsize(path) - start == sum(
                        len(f.bytes) + 4 for f, _ in frames), "not-flushed",
                        f"{what}: {os.path.getsize(path)} bytes")
        except SimCrash:
            disk.epoch += 1
            dead = True
        except (OSError, ValueError):
            check(fault in ("full", "err", "short"), "record-raised", what)
        if crashed() and not dead:
            disk.epoch += 1
            dead = True
        done[0] = True
        crew.join(what="reader")
        if not dead:
            c.wait_until(lambda: writer.state != DaemonState.STARTING,
                         what="running writer")
            check(writer.stop(), "stop-failed", "writer")
        disk.plan.clear()
        disk.sticky = None
        if not path.exists():
            dsk._open(path, "ab").close()
        recorded += [f for f, _ in frames]
        with dsk._open(path, "rb") as fd:
            data = fd.read()
        if fault == "cut" and len(data) > start:
            # lost by the machine, not by the process
            keep = max(start, reader.index) + sess["cut"] % (
                len(data) - max(start, reader.index) + 1)
            os.truncate(path, keep)
            data = data[:keep]
            sim.fault("file_cut")
        # what is in the file: a prefix of what was handed over
        have, rest = c.split_frames(data[start:], what, True)
        want = [f.bytes for f, _ in frames]
        check(have == want[:len(have)], "wrong-record",
              f"{what}: {len(have)} frames in the file are not the first of "
              f"{len(want)}")
        if rest:
            nxt = want[len(have)] if len(have) < len(want) else b""
            check((struct.pack(">I", len(nxt)) + nxt).startswith(rest),
                  "wrong-record", f"{what}: torn tail")
        if fault is None:
            check(len(have) == len(want) and not rest, "lost-record",
                  f"{what}: {len(have)} of {len(want)} frames were recorded")
        torn = bool(rest)
        if torn:
            sim.probe("torn_recording")
        base = len(data)
        if live and fault != "cut":
            # the rest, with a new reader continuing where the last stopped
            reader.run({"max": None, "new": True, "stop": None})
        sim.note(base)
        if n + 1 < len(plan["sessions"]):
            continue
    # independent readers: with limits, interrupted, continued
    other = Reader(sim, env, maker, path, plan["mtu"])
    other.meaning = {f.bytes: f.want for f in recorded}
    for spec in plan["reads"]:
        other.run(spec)
    other.run({"max": None, "new": True, "stop": None})
    size = os.path.getsize(path)
    other.compare(size, "final")
    # from the start in one go
    last = Reader(sim, env, maker, path, plan["mtu"])
    last.meaning = other.meaning
    check(last.run({"max": None, "new": True, "stop": None}), "wrong-marker",
          "no end")
    last.compare(size, "whole file")
    sim.probe("frames", len(last.got))
