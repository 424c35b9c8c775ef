"""The simulator core: baton-passing threads, virtual time, seeded scheduler.

Real OS threads are used, but exactly one of them (the holder of the baton)
executes at any moment.  Every synchronisation operation, clock read, I/O
operation and - through sys.monitoring - every source line (or bytecode) of the
code under test is a *yield point*, at which the scheduler may hand the baton to
another thread.  All choices are drawn from seeded generators and recorded, so
that a run can be repeated from its recorded decisions alone.
"""

import _thread
import heapq
import os
import random
import sys
import traceback
from bisect import bisect_right
from math import log

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_get_ident = _thread.get_ident

RUN, BLOCKED, DONE = 0, 1, 2
EPOCH = 1_700_000_000.0


class SimError(Exception):
    """A defect of the simulator itself (never of the code under test)."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Violation(Exception):
    """A property does not hold."""

    def __init__(self, sig, msg=""):
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg


class Abort(BaseException):
    """Ends the run from inside any thread."""


class SimThread:
    __slots__ = (
        "id", "name", "baton", "state", "wake_token", "reason", "prio",
        "sentinel", "pending", "slice", "spin", "ident", "nostall", "stalled",
    )

    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = RUN
        self.wake_token = 0
        self.reason = None
        self.prio = 0.0
        self.sentinel = None
        self.pending = None
        self.slice = 0
        self.spin = 0
        self.ident = None
        self.nostall = 0
        self.stalled = False


class Waiters:
    """A set of threads blocked on one condition."""

    __slots__ = ("threads",)

    def __init__(self):
        self.threads = []


class Sim:
    """One simulated execution."""

    def __init__(self, seed, cfg, decisions=None):
        self.seed = seed
        self.cfg = cfg
        self.replaying = decisions is not None
        self.rec = {}  # recorded non-default decisions
        self.rep = dict(decisions) if decisions else {}
        self.rng_sched = random.Random(f"{seed}/sched")
        self.rng_env = random.Random(f"{seed}/env")
        self.rng_data = random.Random(f"{seed}/data")
        self.counters = {}
        self.threads = []
        self.cur = None
        self.runq = []
        self.now = 0.0
        self.wall_offset = EPOCH
        self.heap = []
        self.seq = 0
        self.step = 0
        self.switches = 0
        self.hash = 0
        self.active = False
        self.faults = {}
        self.probes = {}
        self.uncaught = []
        self.swallowed = []
        self.events = []
        self.stalls = 0
        self.max_steps = cfg.get("max_steps", 4_000_000)
        self.tick = cfg.get("tick", 2e-6)
        self.epoch = 0
        self.finish_cb = None
        self.next_check = 0
        self.next_due = float("inf")
        self.allow_stall = cfg.get("stall", True)
        self.max_stall = cfg.get("max_stall", 1.0)
        self.stall_budget = cfg.get("stall_budget", 20.0)
        self.time_reads = 0
        self.lines_hit = None
        self.on_step = None
        self._setup_strategy()

    # ---------------------------------------------------------------- config
    def _setup_strategy(self):
        rng = self.rng_sched
        kind = self.cfg.get("strategy", "rw")
        self.kind = kind
        self.p = self.cfg.get("p", 0.05)
        self.stall_p = self.cfg.get("stall_p", 0.0) if self.allow_stall else 0.0
        self.changes = []
        self.hot = None
        # stalls where locks were released: (share of places, probability,
        # longest), and what was drawn for each place
        self.rel = self.cfg.get("rel")
        self.rel_at = {}
        if self.replaying:
            self.rep_steps = sorted(
                int(k[1:]) for k in self.rep if k[0] in "st"
            )
            self.next_check = self.rep_steps[0] if self.rep_steps else 1 << 60
            return
        if kind == "pct":
            est = self.cfg.get("est_steps", 4000)
            d = self.cfg.get("depth", 3)
            self.changes = sorted(rng.randrange(1, est) for _ in range(d))
            self.next_check = self.changes[0] if self.changes else 1 << 60
        elif kind in ("rw", "hot"):
            self.next_check = self._gap()
        else:
            self.next_check = 1 << 60

    def _gap(self):
        p = self.p
        if p <= 0:
            return 1 << 60
        if p >= 1:
            return self.step + 1
        u = self.rng_sched.random()
        return self.step + 1 + int(log(1.0 - u) / log(1.0 - p))

    # --------------------------------------------------------------- threads
    def adopt_main(self, name="main"):
        t = SimThread(0, name)
        t.ident = _real_get_ident()
        t.prio = 2.0 + self.rng_sched.random()
        self.threads.append(t)
        self.cur = t
        self.active = True
        return t

    def start_new_thread(self, func, args, kwargs=None):
        """Replacement for _thread.start_new_thread."""
        t = SimThread(len(self.threads), "")
        t.prio = 2.0 + self.rng_sched.random()
        self.threads.append(t)
        self.runq.append(t)

        def body():
            t.baton.acquire()
            t.ident = _real_get_ident()
            try:
                if t.pending is None:
                    func(*args, **(kwargs or {}))
            except Abort:
                return
            except SimCrash:
                pass
            except SystemExit:
                pass
            except BaseException as exc:  # pragma: no cover
                self.uncaught.append((t.name, exc))
            self._thread_exit(t)

        _real_start(body, ())
        if self.kind == "pct":
            self.next_check = self.step
        self.yield_point()
        return 1000 + t.id

    def _thread_exit(self, t):
        t.state = DONE
        if t.sentinel is not None:
            t.sentinel.force_release()
        nxt = self._pick_blocked()
        self._note(nxt)
        self.cur = nxt
        nxt.baton.release()

    # ------------------------------------------------------------- switching
    def _note(self, nxt):
        self.switches += 1
        self.hash = (
            self.hash * 1000003 ^ (nxt.id << 24) ^ self.step
        ) & 0xFFFFFFFFFFFFFFFF

    def note(self, value):
        """Mix an observable value (int) into the event hash."""
        self.hash = (self.hash * 1000003 ^ value) & 0xFFFFFFFFFFFFFFFF

    def _switch(self, nxt):
        cur = self.cur
        if nxt is cur:
            return
        self._note(nxt)
        nxt.slice = 0
        self.cur = nxt
        nxt.baton.release()
        cur.baton.acquire()
        exc = cur.pending
        if exc is not None:
            cur.pending = None
            raise exc

    def _fire_due(self):
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            _, _, thread, token = heapq.heappop(heap)
            self._fire(thread, token)
        self.next_due = heap[0][0] if heap else float("inf")

    def _fire(self, thread, token):
        if callable(thread):
            thread()
        elif thread.state == BLOCKED and thread.wake_token == token:
            self._make_runnable(thread, "timeout")

    def _make_runnable(self, thread, reason):
        thread.state = RUN
        thread.reason = reason
        thread.wake_token += 1
        self.runq.append(thread)
        if self.kind == "pct" and not self.replaying:
            self.next_check = self.step

    def call_at(self, when, fn):
        """Schedule an event callback (runs in scheduler context)."""
        self.seq += 1
        heapq.heappush(self.heap, (when, self.seq, fn, 0))
        if when < self.next_due:
            self.next_due = when

    def call_later(self, delay, fn):
        self.call_at(self.now + delay, fn)

    def _pick_blocked(self):
        """The current thread cannot continue: choose who runs next."""
        while not self.runq:
            if not self.heap:
                self._deadlock()
            when = self.heap[0][0]
            if when > self.now:
                self.now = when
            self._fire_due()
            if self.now > self.cfg.get("max_time", 1e7):
                self.end("limit", "max simulated time")
        n = len(self.runq)
        idx = 0
        if self.replaying:
            idx = self._rep_choice("b", n)
        elif n > 1:
            if self.kind == "pct":
                idx = max(range(n), key=lambda i: self.runq[i].prio)
            else:
                idx = self.rng_sched.randrange(n)
            self._rec_choice("b", idx)
        t = self.runq.pop(idx)
        t.slice = 0
        return t

    def _rec_choice(self, kind, idx):
        c = self.counters.get(kind, 0)
        self.counters[kind] = c + 1
        if idx:
            self.rec[f"{kind}{c}"] = idx

    def _rep_choice(self, kind, n):
        if kind == "b" and n == 1:
            return 0
        c = self.counters.get(kind, 0)
        self.counters[kind] = c + 1
        idx = self.rep.get(f"{kind}{c}", 0)
        if idx:
            idx = min(idx, n - 1)
            self.rec[f"{kind}{c}"] = idx
        return idx

    def yield_point(self, code=None):
        """The current thread may lose the baton here."""
        self.step = step = self.step + 1
        self.now += self.tick
        if self.now >= self.next_due:
            self._fire_due()
        cur = self.cur
        if self.runq:
            cur.slice += 1
            if cur.slice > 6000:
                cur.slice = 0
                nxt = self.runq.pop(0)
                self.runq.append(cur)
                self._switch(nxt)
                return
        if step >= self.next_check:
            self._slow(cur, step)
        elif step > self.max_steps:
            self.end("limit", "max steps\n" + self.stacks())

    def released(self):
        """A lock was released: what belongs together may not be done yet."""
        share, prob, longest = self.rel
        key = []
        frame = sys._getframe(2)
        while frame is not None and len(key) < 4:
            if "/vtelem/" in frame.f_code.co_filename:
                key += (id(frame.f_code), frame.f_lineno)
            frame = frame.f_back
        key = tuple(key)
        rng = self.rng_sched
        hot = self.rel_at.get(key)
        if hot is None:
            hot = self.rel_at[key] = bool(key) and rng.random() < share
        if hot and rng.random() < prob:
            self.yield_stall(round(
                min(longest, 2e-5 * (10 ** (rng.random() * 4.5))), 7))
        else:
            self.yield_point()

    def yield_stall(self, dur):
        """A yield point at which the targeted strategy stalls the thread."""
        if self.replaying or self.cur.nostall or self.stall_budget < dur:
            self.yield_point()
            return
        self.step = step = self.step + 1
        self.now += self.tick
        if self.now >= self.next_due:
            self._fire_due()
        cur = self.cur
        if self.runq:
            cur.slice += 1
            if cur.slice > 6000:
                cur.slice = 0
                nxt = self.runq.pop(0)
                self.runq.append(cur)
                self._switch(nxt)
                return
        if step > self.max_steps:
            self.end("limit", "max steps\n" + self.stacks())
        self._stall(cur, step, dur)

    def _slow(self, cur, step):
        if step > self.max_steps:
            self.end("limit", "max steps\n" + self.stacks())
        if self.replaying:
            i = bisect_right(self.rep_steps, step)
            self.next_check = (
                self.rep_steps[i] if i < len(self.rep_steps) else 1 << 60
            )
            d = self.rep.get(f"t{step}")
            if d is not None:
                self._stall(cur, step, d)
                return
            d = self.rep.get(f"s{step}")
            if d is not None and self.runq:
                for i, t in enumerate(self.runq):
                    if t.id == d:
                        self.rec[f"s{step}"] = d
                        del self.runq[i]
                        self.runq.append(cur)
                        self._switch(t)
                        return
            return
        if self.kind == "pct":
            changes = self.changes
            if changes and step >= changes[0]:
                n = len(changes)
                while changes and step >= changes[0]:
                    changes.pop(0)
                cur.prio = n / 100.0
                if self.stall_p and self.rng_sched.random() < self.stall_p:
                    self.next_check = changes[0] if changes else 1 << 60
                    self._stall(cur, step, self._stall_len())
                    return
            self.next_check = changes[0] if changes else 1 << 60
            if self.runq:
                best = max(self.runq, key=lambda t: t.prio)
                if best.prio > cur.prio:
                    self.rec[f"s{step}"] = best.id
                    self.runq.remove(best)
                    self.runq.append(cur)
                    self._switch(best)
            return
        self.next_check = self._gap()
        if self.stall_p and self.rng_sched.random() < self.stall_p:
            self._stall(cur, step, self._stall_len())
            return
        if self.runq:
            idx = self.rng_sched.randrange(len(self.runq))
            t = self.runq.pop(idx)
            self.rec[f"s{step}"] = t.id
            self.runq.append(cur)
            self._switch(t)

    def _stall_len(self):
        r = self.rng_sched.random()
        return round(min(self.max_stall, 1e-5 * (10 ** (r * 5))), 7)

    def _stall(self, cur, step, dur):
        """Take the current thread off the processor for a while."""
        if cur.nostall or self.stall_budget < dur:
            return
        self.stall_budget -= dur
        self.rec[f"t{step}"] = dur
        self.stalls += 1
        self.fault("sched_stall")
        cur.stalled = True
        try:
            self.block(None, dur)
        finally:
            cur.stalled = False

    # -------------------------------------------------------------- blocking
    def block(self, waiters, timeout=None):
        """Block the current thread; True if woken, False if timed out."""
        cur = self.cur
        if cur.slice < 0:
            raise SimError("negative slice")
        cur.state = BLOCKED
        cur.spin = 0
        if waiters is not None:
            waiters.threads.append(cur)
        if timeout is not None:
            when = self.now + max(timeout, 0.0)
            self.seq += 1
            heapq.heappush(self.heap, (when, self.seq, cur, cur.wake_token))
            if when < self.next_due:
                self.next_due = when
        nxt = self._pick_blocked()
        if nxt is not cur:
            self._note(nxt)
            self.cur = nxt
            nxt.baton.release()
            cur.baton.acquire()
        exc = cur.pending
        if waiters is not None and (
            exc is not None or cur.reason != "wake"
        ):
            try:
                waiters.threads.remove(cur)
            except ValueError:
                pass
        if exc is not None:
            cur.pending = None
            raise exc
        return cur.reason != "timeout"

    def interrupt(self, thread, exc):
        """A signal: the thread raises this wherever it waits."""
        thread.pending = exc
        if thread.state == BLOCKED:
            self._make_runnable(thread, "interrupt")

    def wake_all(self, waiters):
        ths = waiters.threads
        if ths:
            waiters.threads = []
            for t in ths:
                if t.state == BLOCKED:
                    self._make_runnable(t, "wake")

    def sleep(self, secs):
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        if secs == 0:
            self.rotate()
            return
        self.block(None, secs)

    def rotate(self):
        """Voluntarily let somebody else run (sleep(0))."""
        self.step += 1
        self.now += self.tick
        if self.now >= self.next_due:
            self._fire_due()
        if self.runq:
            nxt = self.runq.pop(0)
            self.runq.append(self.cur)
            self._switch(nxt)

    # ------------------------------------------------------------------ time
    def read_time(self):
        cur = self.cur
        self.time_reads += 1
        if cur is not None:
            cur.spin += 1
            if cur.spin > 40:
                # a thread polling the clock: polling takes (growing) time,
                # and everybody else gets to run meanwhile
                cur.spin = 20
                self._poll_pause()
        if self.active:
            self.yield_point()
        return self.now

    def _poll_pause(self):
        if self.runq:
            nxt = self.runq.pop(0)
            self.runq.append(self.cur)
            self._switch(nxt)
        else:
            due = self.next_due
            self.now = min(max(due, self.now), self.now + 0.02)
            if self.now >= self.next_due:
                self._fire_due()

    # ------------------------------------------------- environment decisions
    def choose(self, kind, n, weights=None):
        """An environment decision; 0 is the benign default."""
        if self.replaying:
            return self._rep_choice("e" + kind + ":", n)
        if n <= 1:
            idx = 0
        else:
            idx = self.rng_env.randrange(n)
        self._rec_choice("e" + kind + ":", idx)
        return idx

    def chance(self, kind, p):
        """A fault decision with probability p (False is benign)."""
        if self.replaying:
            return bool(self._rep_choice("e" + kind + ":", 2))
        hit = self.rng_env.random() < p
        self._rec_choice("e" + kind + ":", int(hit))
        return hit

    def amount(self, kind, p, lo, hi):
        """0 with probability 1-p, otherwise an integer in [lo, hi]."""
        if self.replaying:
            return self._rep_choice("e" + kind + ":", 1 << 60)
        val = 0
        if self.rng_env.random() < p:
            val = self.rng_env.randint(lo, hi)
        self._rec_choice("e" + kind + ":", val)
        return val

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    # ------------------------------------------------------------ end of run
    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state == DONE:
                continue
            fr = frames.get(t.ident)
            stack = []
            while fr is not None and len(stack) < 40:
                fn = fr.f_code.co_filename
                if os.environ.get("DST_FULLSTACK") or "/dst/" not in fn and not fn.endswith(
                    ("threading.py", "queue.py")
                ):
                    stack.append(
                        f"{os.path.basename(os.path.dirname(fn))}/"
                        f"{os.path.basename(fn)}:"
                        f"{fr.f_lineno}:{fr.f_code.co_name}"
                    )
                fr = fr.f_back
            out.append(
                f"[{t.id} {t.name} {'run' if t.state == RUN else 'blocked'}] "
                + " < ".join(stack[:30])
            )
        return "\n".join(out)

    def _deadlock(self):
        self.end("deadlock", self.stacks())

    def end(self, status, msg):
        """Terminate the run right here, from any thread."""
        self.active = False
        self.finish_cb(status, msg)
        os._exit(0)


SIM = None


def set_sim(sim):
    global SIM
    SIM = sim


def short_tb(exc, limit=6):
    tb = traceback.extract_tb(exc.__traceback__)
    parts = [
        f"{os.path.basename(os.path.dirname(f.filename))}/"
        f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}"
        for f in tb[-limit:]
    ]
    return f"{type(exc).__name__}: {exc} @ " + " > ".join(parts)
