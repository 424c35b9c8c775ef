"""Helpers shared by the scenarios (harness code: never preempted by itself)."""

import struct
import threading

from .. import core
from ..core import Violation


def sim():
    return core.SIM


def check(cond, sig, msg=""):
    if not cond:
        raise Violation(sig, msg)


def now():
    return core.SIM.now


def sleep(secs):
    """Harness sleep in simulated time."""
    core.SIM.sleep(secs)


def step(n=1):
    for _ in range(n):
        core.SIM.yield_point()


class Crew:
    """Harness threads that are joined with a (simulated) time limit."""

    def __init__(self):
        self.threads = []

    def go(self, fn, *args, name=None):
        t = threading.Thread(
            target=fn, args=args, name=name or f"h{len(self.threads)}"
        )
        t.daemon = True
        self.threads.append(t)
        t.start()
        return t

    def join(self, limit=600.0, what="operation"):
        for t in self.threads:
            t.join(limit)
            if t.is_alive():
                reraise()
                raise Violation(
                    "no-progress",
                    f"{what}: thread {t.name!r} did not finish within {limit}"
                    f" simulated seconds\n{core.SIM.stacks()}",
                )
        reraise()


def reraise():
    """Raise what ended a harness thread, if it was a violation."""
    for _, exc in core.SIM.uncaught:
        if isinstance(exc, (Violation, core.SimError)):
            raise exc


def wait_until(cond, limit=60.0, step_s=0.01, what="condition"):
    """Poll in simulated time; a violation when the limit passes."""
    s = core.SIM
    end = s.now + limit
    while not cond():
        if s.now > end:
            reraise()
            raise Violation(
                "no-progress",
                f"{what} not reached within {limit} simulated seconds\n"
                + s.stacks(),
            )
        s.sleep(step_s)


def poll(cond, limit=60.0, step_s=0.01):
    s = core.SIM
    end = s.now + limit
    while not cond():
        if s.now > end:
            return False
        s.sleep(step_s)
    return True


def thread_alive(daemon):
    """Is the daemon's worker (by thread name) still alive?"""
    return [
        t for t in threading.enumerate()
        if t.name == daemon.name and t.is_alive()
    ]


def split_frames(data, what, partial=False):
    """Length-prefixed frames of a byte string; (frames, rest)."""
    out = []
    pos = 0
    data = bytes(data)
    while pos + 4 <= len(data):
        n = struct.unpack(">I", data[pos:pos + 4])[0]
        if pos + 4 + n > len(data):
            break
        out.append(data[pos + 4:pos + 4 + n])
        pos += 4 + n
    rest = data[pos:]
    if rest and not partial:
        raise Violation(
            "torn-output",
            f"{what}: {len(rest)} trailing bytes after {len(out)} frames",
        )
    return out, rest


def wire(frame):
    """Expected wire bytes of a finalized frame (no size header)."""
    data, size = frame.raw
    return bytes(data[:size])


def find_run(seq, ref):
    """Index of contiguous seq in ref (ref has unique elements), or None."""
    if not seq:
        return 0
    try:
        i = ref.index(seq[0])
    except ValueError:
        return None
    return i if ref[i:i + len(seq)] == seq else None


class CountHash:
    """Mix harness observations into the run's event hash."""

    @staticmethod
    def add(value):
        core.SIM.note(hash(value) & 0xFFFFFFFF if not isinstance(value, str)
                      else sum(map(ord, value)))
