"""C01: the stream writer under concurrent output changes and failures."""

import errno
import io
import os
from queue import Queue

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["producers", "managers"]
RUNS = {"quick": 1500, "thorough": 30000}
REAL = "StreamWriter, QueueDaemon, DaemonBase, MeteredQueue, Framer, frames"


def gen(rng, tier):
    prods = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        prods.append([
            [rng.choice((0, 0, 1, 3, 20)),
             rng.choice((0, 0, 0, 1e-5, 1e-3, 0.02))]
            for _ in range(rng.randint(1, 14))
        ])
    mans = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(1, 8)):
            kind = rng.choice(("mem", "mem", "queue", "rqueue", "rqueue",
                               "bytesio",
                               "rm", "rm", "close", "rmtwice", "sleep",
                               "file", "sem", "ctx"))
            op = [kind]
            if kind in ("mem", "sem", "ctx"):
                fail = rng.choice((None, None, "err", "flusherr", "short",
                                   "zero"))
                op += [fail, rng.randint(0, 6), rng.random() < 0.4]
            elif kind == "sleep":
                op.append(rng.choice((1e-5, 1e-4, 1e-3, 0.02)))
            elif kind in ("rm", "close", "rmtwice"):
                op.append(rng.randint(0, 5))
            elif kind == "file":
                op.append(rng.random() < 0.5)
            elif kind == "rqueue":
                # space in the queue, pause of its consumer
                op += [rng.choice((256, 256, 1, 2, 4)),
                       rng.choice((0, 0, 1e-4, 5e-3))]
            ops.append(op)
        mans.append(ops)
    return {
        "cfg": sched_cfg(rng),
        "env": rng.random() < 0.5,
        "maxq": rng.choice((2, 256)),
        "base": rng.choice(("mem", "queue", "both")),
        "owner": rng.random() < 0.7,
        "crowd": rng.choice((0, 0, 0, 4, 12)),
        "producers": prods,
        "managers": mans,
    }


class MemStream:
    """A stream owned by the harness; may fail at the n-th write."""

    name = "mem"

    def __init__(self, fail=None, at=0):
        self.data = bytearray()
        self.good = 0  # bytes of completed writes
        self.fail = fail
        self.at = at
        self.writes = 0
        self.failed = False
        self.closed = False
        self.busy = False
        self.after_fail = 0
        self.done = 0  # completed writes (and flushes)
        self.stamps = []  # when they completed
        self.tick = None

    def write(self, data):
        check(not self.busy, "overlapping-write", "two writes overlap")
        self.busy = True
        try:
            c.step()
            if self.closed:
                raise ValueError("write to closed file")
            if self.failed:
                self.after_fail += 1
            k = self.writes
            self.writes += 1
            data = bytes(data)
            if self.fail is not None and k >= self.at:
                if self.fail == "err":
                    self.failed = True
                    c.sim().fault("stream_write_error")
                    raise OSError(errno.EPIPE, os.strerror(errno.EPIPE))
                if self.fail == "short":
                    self.failed = True
                    n = len(data) // 2
                    self.data += data[:n]
                    c.sim().fault("stream_short_write")
                    return n
                if self.fail == "zero":
                    self.failed = True
                    c.sim().fault("stream_timeout")
                    raise TimeoutError("timed out")
            half = len(data) // 2
            self.data += data[:half]
            c.step()
            self.data += data[half:]
            self.good = len(self.data)
            self.done += 1
            if self.tick is not None:
                self.stamps.append(self.tick())
            return len(data)
        finally:
            self.busy = False

    def flush(self):
        c.step()
        if self.closed:
            self.done -= 1
            raise ValueError("flush of closed file")
        if self.fail == "flusherr" and self.writes > self.at:
            self.failed = True
            self.done -= 1
            c.sim().fault("stream_flush_error")
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))

    def close(self):
        self.closed = True


class Output:
    """What the harness knows about one output."""

    def __init__(self, kind, world):
        self.kind = kind
        self.world = world
        self.ident = None
        self.stream = None
        self.queue = None
        self.got = None
        self.add_call = None
        self.add_ret = None
        self.rm_call = None
        self.rm_ret = None
        self.removed = 0
        self.closes = 0
        self.want_close = True
        self.owner_closed = False

    def closer(self):
        self.closes += 1
        check(self.closes == 1, "closer-twice",
              f"closer of stream {self.ident} called again")


class World:
    pass


def run(sim, plan):
    from vtelem.daemon import DaemonState
    from vtelem.enums.primitive import Primitive
    from vtelem.frame.framer import Framer
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = None
    if plan["env"]:
        env = TelemetryEnvironment(1024, metrics_rate=1.0, app_id_basis=0.5)
    errors = []

    def error_handle(stream_id):
        errors.append(stream_id)

    writer, queue = default_writer(
        "writer", error_handle if plan["owner"] else None, env,
        maxsize=plan["maxq"],
    )
    framer = Framer(1024, 0.5)
    outputs = []
    handed = []  # (put_call, put_ret, bytes) in completion order of put
    seq = [0]
    consumers = c.Crew()

    def tick():
        seq[0] += 1
        return seq[0]

    def make_frame(number, extra):
        frame = framer.new_frame("data", float(number))
        frame.add(1, Primitive.UINT32, number)
        for i in range(extra):
            frame.add(2, Primitive.UINT8, i)
        frame.finalize()
        return frame

    def consume(out, pause):
        while True:
            item = out.queue.get()
            if item is None:
                # whatever arrives after the end marker is still kept
                return
            out.got.append((tick(), c.wire(item)))
            if pause:
                c.sleep(pause)

    def add_queue(kind, size=256, pause=0):
        out = Output("queue", None)
        out.got = []
        out.add_call = tick()
        if kind == "queue":
            out.queue = Queue()
            out.ident = writer.add_queue(out.queue)
        else:
            out.ident, out.queue = writer.registered_queue(
                f"q{len(outputs)}" if env is not None else None, size
            )
            consumers.go(consume, out, pause, name="consumer")
        out.add_ret = tick()
        outputs.append(out)
        return out

    def add_stream(op):
        out = Output("stream", None)
        if op[0] == "bytesio":
            out.stream = io.BytesIO()
            out.stream.fail = None
            flush = False
        else:
            out.stream = MemStream(op[1], op[2])
            flush = op[3]
            if out.stream.fail == "flusherr" and not flush:
                out.stream.fail = None
        out.add_call = tick()
        out.ident = writer.add_stream(out.stream, out.closer, flush)
        out.add_ret = tick()
        outputs.append(out)
        return out

    # reference outputs, present before anything is handed over
    refs = []
    if plan["base"] in ("mem", "both"):
        refs.append(add_stream(["mem", None, 0, False]))
    if plan["base"] in ("queue", "both"):
        refs.append(add_queue("queue"))
    if plan["base"] in ("mem", "both"):
        refs[0].stream.tick = tick
    for k in range(plan["crowd"]):
        if k % 3:
            add_queue("queue")
        else:
            add_stream(["mem", None, 0, False])

    assert writer.start()

    def produce(n, items):
        for i, (extra, pause) in enumerate(items):
            frame = make_frame(1000 * (n + 1) + i, extra)
            data = c.wire(frame)
            call = tick()
            queue.put(frame)
            handed.append((call, tick(), data, n))
            if pause:
                c.sleep(pause)

    tmp = {}

    def manage(n, ops):
        own = []
        for op in ops:
            kind = op[0]
            if kind in ("mem", "bytesio"):
                own.append(add_stream(op))
            elif kind in ("queue", "rqueue"):
                own.append(add_queue(*op))
            elif kind == "sleep":
                c.sleep(op[1])
            elif kind == "sem":
                out = Output("stream", None)
                out.stream = MemStream(op[1] if op[1] != "flusherr" else None,
                                       op[2])
                out.want_close = False
                out.add_call = tick()
                out.ident, out.sem = writer.add_semaphore_stream(out.stream)
                out.add_ret = tick()
                outputs.append(out)
                own.append(out)
            elif kind == "ctx":
                out = Output("stream", None)
                out.want_close = False
                out.stream = MemStream(op[1], op[2])
                if out.stream.fail == "flusherr":
                    out.stream.fail = None
                out.add_call = tick()
                with writer.stream_added(out.stream):
                    out.add_ret = tick()
                    outputs.append(out)
                    c.sleep(1e-4 * op[2])
                    out.rm_call = tick()
                out.rm_ret = tick()
                out.removed = 1
            elif kind == "file":
                path = os.path.join(tmp["dir"], f"f{n}.bin")
                from pathlib import Path

                out = Output("file", None)
                out.want_close = False
                out.path = path
                out.start = (os.path.getsize(path)
                             if os.path.exists(path) else 0)
                out.add_call = tick()
                with writer.add_file(Path(path), flush=op[1]):
                    out.add_ret = tick()
                    c.sleep(1e-3)
                    out.rm_call = tick()
                out.rm_ret = tick()
                with open(path, "rb") as fd:
                    fd.seek(out.start)
                    out.data = fd.read()
                outputs.append(out)
            elif own:
                out = own[op[1] % len(own)]
                if kind == "close":
                    if out.kind == "stream":
                        # the owner closes the stream first, then removes it
                        sim.fault("owner_close")
                        out.owner_closed = True
                        out.rm_call = out.rm_call or tick()
                        out.stream.close()
                elif kind in ("rm", "rmtwice"):
                    times = 2 if kind == "rmtwice" else 1
                    for _ in range(times):
                        out.rm_call = out.rm_call or tick()
                        if out.kind == "queue":
                            res = writer.remove_queue(out.ident)
                        else:
                            res = writer.remove_stream(out.ident)
                        out.rm_ret = out.rm_ret or tick()
                        out.removed += bool(res)
                        check(out.removed <= 1, "removed-twice",
                              f"output {out.ident} removed twice")

    import tempfile

    tmp["dir"] = tempfile.mkdtemp()
    sim.cleanup = lambda: __import__("shutil").rmtree(tmp["dir"])

    crew = c.Crew()
    for n, items in enumerate(plan["producers"]):
        crew.go(produce, n, items, name=f"prod{n}")
    for n, ops in enumerate(plan["managers"]):
        crew.go(manage, n, ops, name=f"man{n}")
    crew.join(what="hand-over and output management")

    # let the writer finish, then stop it
    c.wait_until(queue.empty, what="frame queue drained")
    assert writer.stop(100)
    c.wait_until(lambda: writer.get_state() == DaemonState.IDLE,
                 what="writer stopped")
    end = tick()

    # queues still registered: end their consumers
    for out in outputs:
        if out.kind == "queue":
            if not out.removed:
                check(writer.remove_queue(out.ident), "lost-output",
                      f"queue {out.ident} is not registered any more")
    consumers.join(what="queue consumers")
    for out in outputs:
        if out.kind == "queue":
            while not out.queue.empty():
                item = out.queue.get()
                if item is not None:
                    out.got.append((0, c.wire(item)))

    if env is not None:
        metrics(sim, env, outputs)
    evaluate(sim, plan, outputs, refs, handed, errors, writer, end)


def metrics(sim, env, outputs):
    """What is reported about the outputs agrees with what they got."""
    puts = sum(len(o.got) for o in outputs if o.kind == "queue")
    val = env.get_metric("writer.queue_writes")
    check(val == puts, "wrong-metric", f"queue_writes {val}, were {puts}")
    done = size = 0
    for out in outputs:
        if out.kind == "queue":
            continue
        if isinstance(out.stream, MemStream):
            done += out.stream.done
            size += out.stream.good
            if out.stream.failed or out.owner_closed:
                size = None  # (what was written before is unknown)
                break
            continue
        frames = frames_of(out)
        if frames is None:
            return
        done += len(frames)
        size += sum(map(len, frames)) + 4 * len(frames)
    if size is None:
        return
    got = [env.get_metric(f"writer.{x}")
           for x in ("stream_writes", "bytes_written", "queue_count",
                     "stream_count")]
    left = sum(o.kind == "stream" and not o.removed for o in outputs)
    check(got == [done, size, 0, left], "wrong-metric",
          f"[stream_writes, bytes_written, queues, streams] = {got}, were "
          f"{[done, size, 0, left]}")
    sim.probe("metrics_checked")


def frames_of(out):
    if out.kind == "queue":
        return [d for _, d in out.got]
    if out.kind == "file":
        return c.split_frames(out.data, "file")[0]
    if isinstance(out.stream, io.BytesIO):
        try:
            data = out.stream.getvalue()
        except ValueError:
            return None
        return c.split_frames(data, "bytesio")[0]
    data = bytes(out.stream.data)
    partial = out.stream.failed
    frames, rest = c.split_frames(data, "mem", partial)
    return frames


def evaluate(sim, plan, outputs, refs, handed, errors, writer, end):
    ref = frames_of(refs[0])
    sent = [d for _, _, d, _ in handed]
    check(sorted(ref) == sorted(sent), "lost-or-duplicated",
          f"reference output got {len(ref)} frames, {len(sent)} handed over")
    for n in range(len(plan["producers"])):
        mine = [d for _, _, d, p in handed if p == n]
        order = [d for d in ref if d in set(mine)]
        check(order == mine, "out-of-order",
              f"producer {n}: frames written in another order")
    # hand-over order: a put that returned before another began comes first
    pos = {d: i for i, d in enumerate(ref)}
    for call_a, ret_a, a, _ in handed:
        for call_b, _, b, _ in handed:
            if ret_a < call_b:
                check(pos[a] < pos[b], "out-of-order",
                      "a frame handed over later was written earlier")
    stamps = getattr(refs[0].stream, "stamps", ())
    put_call = {d: call for call, _, d, _ in handed}
    for out in outputs:
        got = frames_of(out)
        if got is None:
            continue
        where = c.find_run(got, ref)
        check(where is not None, "gap-or-reorder",
              f"{out.kind} {out.ident} got frames "
              f"{[ref.index(g) if g in ref else '?' for g in got]}"
              f" of {len(ref)}")
        sim.note(len(got) * 7 + (where or 0))
        failed = getattr(out.stream, "failed", False)
        closed = getattr(out.stream, "closed", False)
        # frames handed over after the output was removed must not appear
        if out.rm_ret is not None and out.removed:
            for g in got:
                check(put_call[g] < out.rm_ret, "written-after-removal",
                      f"{out.kind} {out.ident}")
        # everything handed over while it was registered must appear
        if not failed and not out.owner_closed:
            have = set(got)
            # it was registered while these were written (the writer had
            # begun with a later one before it was removed)
            due = len(ref) if out.rm_call is None else sum(
                t < out.rm_call for t in stamps) - 1
            for call, _, d, _ in handed:
                if call > out.add_ret and pos[d] < due:
                    check(d in have, "missing-frame",
                          f"{out.kind} {out.ident} misses a frame")
        if failed:
            check(out.stream.after_fail == 0, "not-dropped",
                  f"stream {out.ident} written again after its failure")
        if out.kind == "stream" and (failed or out.removed):
            if out.want_close:
                check(out.closes == 1, "closer-not-called",
                      f"stream {out.ident}: closer called {out.closes} times")
            elif hasattr(out, "sem"):
                check(out.sem.acquire(False), "closer-not-called",
                      f"semaphore of stream {out.ident} not released")
                check(not out.sem.acquire(False), "closer-twice",
                      f"semaphore of stream {out.ident} released twice")
        if out.kind == "stream" and not closed:
            if failed:
                check(not writer.remove_stream(out.ident, False),
                      "not-dropped", f"stream {out.ident} still registered")
            elif not out.removed:
                check(writer.remove_stream(out.ident, False), "lost-output",
                      f"healthy stream {out.ident} was dropped")
        if plan["owner"] and out.kind == "stream":
            n = errors.count(out.ident)
            check(n <= 1, "owner-told-twice", f"stream {out.ident}: {n}")
            if failed and not out.removed:
                check(n == 1, "owner-not-told", f"stream {out.ident}")
            if n:
                check(failed or out.owner_closed, "owner-told-wrongly",
                      f"stream {out.ident}")
