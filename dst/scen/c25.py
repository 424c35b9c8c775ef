"""C25: everyone who listens to a server decodes what applications published."""

import io
import tempfile
from pathlib import Path
from queue import Empty, Queue

from ..child import sched_cfg
from . import common as c
from . import wirefmt
from .common import check

SHRINK = ["consumers", "ops", "apps"]
RUNS = {"quick": 500, "thorough": 12000}
REAL = ("TelemetryServer with its time keeper, telemetry, stream, tcp and "
        "websocket services, channel groups and applications, TcpClient, "
        "UdpClient, WebsocketClient, FileClient and the helpers that create "
        "them, websockets, socketserver and asyncio (threads, clock, sockets "
        "and selector are simulated; files are real and fault-free)")

KINDS = ("tcp", "tcp", "udp", "udp", "ws", "ws", "file", "file", "made",
         "memory", "queue")


def gen(rng, tier):
    def app():
        return {"when": rng.choice((0, 0, 0, 1e-4, 0.02, 0.2)),
                "rate": rng.choice((0.02, 0.05, 0.1)),
                "n": rng.randint(1, 4),
                "emit": rng.choice((0.0, 0.05, 0.1, 0.3)),
                "track": rng.random() < 0.7,
                "enum": rng.random() < 0.6,
                "limit": rng.choice((2, 4, 9, 15)),
                "inner": rng.choice((0, 0, 1e-3, 0.03))}

    def consumer():
        return {"kind": rng.choice(KINDS),
                "delay": rng.choice((0, 0, 1e-4, 0.02, 0.1, 0.4)),
                "leave": rng.choice((None, None, 0, 0.05, 0.3, 0.6)),
                "again": rng.random() < 0.4,
                "peek": rng.random() < 0.4,
                "flush": rng.random() < 0.5}

    def op():
        return [rng.choice((0, 1e-3, 0.03, 0.1, 0.3)),
                rng.choice(("scale", "pause", "restart", "late", "enum",
                            "other", "break")),
                rng.randrange(1000)]

    cfg = sched_cfg(rng, max_steps=24_000_000)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    cfg["hot_max"] = min(cfg.get("hot_max", 0), 0.05)
    if cfg["strategy"] == "pct":
        # periodic workers can take all of the time there is: be fair
        cfg.update(strategy="rw", p=0.0)
    return {
        "cfg": cfg,
        "net": {"seg": rng.choice(("none", "random")),
                "lat_max": rng.choice((1e-4, 1e-3, 0.02))},
        "tick": rng.choice((0.01, 0.05)),
        "telem": rng.choice((0.03, 0.1)),
        "metrics": rng.choice((None, None, 0.1, 0.5)),
        "basis": rng.random() < 0.7,
        "apps": [app() for _ in range(rng.choice((1, 1, 2, 3)))],
        "consumers": [consumer() for _ in range(rng.randint(1, 4))],
        "ops": [op() for _ in range(rng.choice((0, 1, 2, 4)))],
        "early": rng.random() < 0.5,
    }


def allow_swallowed(sim, where, exc):
    return isinstance(exc, ConnectionError)


ENUM = ("red", "green", "blue")


class App:
    """An application with one group of channels."""

    def __init__(self, k, spec):
        self.name = f"app{k}"
        self.spec = spec
        self.n = 0
        self.group = None
        self.ids = {}
        self.done = False

    def values(self, n):
        """What the n-th write publishes."""
        out = {}
        for j in range(self.spec["n"]):
            out[f"i{j}"] = 3 * n + j
        out["f"] = n / 8.0
        out["b"] = bool(n % 3 == 1)
        if self.spec["enum"]:
            out["e"] = ENUM[n % 3]
        return out

    def setup(self, groups, _):
        from vtelem.enums.primitive import Primitive

        spec = self.spec
        self.group = groups.create_group(self.name)
        for j in range(spec["n"]):
            groups.add_channel(self.group, f"i{j}", Primitive.INT32,
                               spec["emit"], spec["track"])
        groups.add_channel(self.group, "f", Primitive.DOUBLE, spec["emit"],
                           spec["track"])
        groups.add_channel(self.group, "b", Primitive.BOOLEAN, spec["emit"])
        if spec["enum"]:
            groups.add_enum_channel(self.group, "e", "colour", spec["emit"],
                                    spec["track"])

    def loop(self, groups, _):
        if self.n >= self.spec["limit"]:
            self.done = True
            return
        with groups.group(self.group) as data:
            want = self.values(self.n) if self.n else None
            if want is not None:
                check(data == want, "wrong-group", f"{data}, wrote {want}")
            if self.spec["inner"]:
                c.sleep(self.spec["inner"])
            data.update(self.values(self.n + 1))
            self.n += 1


def canon(frame):
    """A ParsedFrame, as a comparable value."""
    body = frame.body
    head = frame.header
    kind = int(head.type)
    if kind == 1:
        items = tuple((x["id"], x["value"]) for x in body["channels"])
    elif kind == 2:
        items = tuple(
            (x["id"], (x["previous"]["value"], x["previous"]["time"]),
             (x["current"]["value"], x["current"]["time"]))
            for x in body["events"])
    else:
        items = ("?", kind)
    return (head.app_id, kind, head.timestamp, head.size, items)


class Consumer:
    """Somebody who listens."""

    def __init__(self, k, spec, st):
        self.name = f"{spec['kind']}{k}"
        self.spec = spec
        self.st = st
        self.runs = []  # [frames decoded, first index bounds, last bound]

    def drain(self, queue, into, ends):
        """Take what a client delivered."""
        while True:
            try:
                got = queue.get(False)
            except Empty:
                return
            if got is None:
                ends.append(len(into))
            else:
                into.append(canon(got))

    def wait(self, poll):
        """Listen until everything was produced and arrived."""
        c.wait_until(lambda: self.st["settled"], limit=300.0,
                     what="production ends")
        last = self.st["last"]

        def complete():
            got = poll()
            return last is None or last in got

        if not c.poll(complete, limit=60.0):
            got = poll()
            check(False, "incomplete",
                  f"{self.name}: the last frame {last} never arrived, "
                  f"{len(got)} frames, last {got[-1:]}")
        return True


def run(sim, plan):
    # pylint: disable=too-many-statements
    from vtelem.client import file as vfile
    from vtelem.client import udp as vudp
    from vtelem.client.tcp import TcpClient
    from vtelem.client.websocket import WebsocketClient
    from vtelem.daemon import DaemonState as State
    from vtelem.classes.user_enum import user_enum as UserEnum
    from vtelem.mtu import Host
    from vtelem.telemetry.server import TelemetryServer
    from vtelem.types.telemetry_server import Service, TelemetryServices

    from .. import net

    tmp = tempfile.TemporaryDirectory(prefix="c25-")
    ports = [net.NET.port() for _ in range(4)]
    server = TelemetryServer(
        plan["tick"], plan["telem"], plan["metrics"],
        0.5 if plan["basis"] else None,
        TelemetryServices(
            Service("http", Host("127.0.0.1", ports[0]), False),
            Service("wsc", Host("127.0.0.1", ports[1]), False),
            Service("wst", Host("127.0.0.1", ports[2]), True),
            Service("tcp", Host("127.0.0.1", ports[3]), True)))
    daemons = server.daemons
    telem, writer = daemons.get("telemetry"), daemons.get("stream")
    reg = telem.channel_registry
    telem.add_enum(UserEnum("colour", dict(enumerate(ENUM))))
    ref = []  # raw frames in the order written

    class Sink(Queue):
        """Collects what is written."""

        def put(self, item, block=True, timeout=None):
            ref.append(c.wire(item))

    writer.add_queue(Sink())
    st = {"settled": False, "last": None}
    apps = [App(k, spec) for k, spec in enumerate(plan["apps"])]
    types = {}

    def produced():
        """How many frames the stream writer wrote so far."""
        return len(ref)

    def canon_raw(raw):
        """A written frame, as a comparable value (decoded independently)."""
        for k in range(reg.count()):
            if k not in types:
                types[k] = reg.get_item(k).type.name
        try:
            f = wirefmt.decode(raw, types, False)
        except wirefmt.Bad as exc:
            check(False, "undecodable", f"{exc}: {raw.hex()}")
        return (f.app, f.type, f.time, f.count, tuple(f.items))

    def register(app):
        check(server.register_application(
            app.name, app.spec["rate"], app.setup, app.loop),
            "refused", app.name)

    # --------------------------------------------------------- consumers
    def client_run(con, client, queue, low, start=None):
        """One run of a client that is a daemon of its own."""
        into, ends = [], []

        def take():
            con.drain(queue, into, ends)
            return into

        check(client.start(), "not-started", con.name)
        c.wait_until(lambda: client.state != State.STARTING, limit=20.0,
                     what=f"{con.name} running")
        if con.spec["leave"] is None:
            # (connecting takes time, there may be nothing left to receive)
            c.poll(lambda: take() or st["settled"], limit=30.0)
            late = st["settled"] and not into and (
                start is None or start >= produced())
        full = con.wait(take) if con.spec["leave"] is None and not late \
            else c.sleep(con.spec["leave"] or 0.0)
        high = produced()
        if client.state not in (State.IDLE,):
            # a websocket client that lost its server ended already
            client.stop()
        c.wait_until(lambda: client.state == State.IDLE, limit=30.0,
                     what=f"{con.name} stops")
        take()
        con.runs.append((into, low, start if full else None,
                         high if full else None))
        return ends

    def consume(con):
        spec, kind = con.spec, con.spec["kind"]
        if spec["delay"]:
            c.sleep(spec["delay"])
        rounds = 2 if spec["again"] and spec["leave"] is not None else 1
        if kind in ("memory", "queue", "file"):
            for _ in range(rounds):
                stream = io.BytesIO()
                low = produced()
                if kind == "memory":
                    ident = writer.add_stream(stream, None, spec["flush"])
                elif kind == "queue":
                    # others' queues: unlimited, ended by nothing
                    mine = Queue()
                    ident = writer.add_queue(mine)
                else:
                    path = Path(tmp.name, f"{con.name}-{len(con.runs)}.vtelem")
                    context = writer.add_file(path, flush=spec["flush"])
                    context.__enter__()
                start = produced()
                if spec["leave"] is not None:
                    c.sleep(spec["leave"])
                else:
                    c.wait_until(lambda: st["settled"], limit=300.0,
                                 what="production ends")
                high = produced()
                if kind == "memory":
                    check(writer.remove_stream(ident), "not-removed",
                          con.name)
                    raws = c.split_frames(stream.getvalue(), con.name)[0]
                    got = [canon_raw(x) for x in raws]
                elif kind == "queue":
                    check(writer.remove_queue(ident), "not-removed", con.name)
                    got, ended = [], 0
                    while True:
                        try:
                            frame = mine.get(False)
                        except Empty:
                            break
                        if frame is None:
                            ended += 1
                            continue
                        got.append(canon_raw(c.wire(frame)))
                    check(ended == 1, "wrong-end", f"{con.name}: {ended}")
                else:
                    context.__exit__(None, None, None)
                    got = replay(con, path)
                con.runs.append((got, low, start, high))
            return
        if kind == "made":
            with vfile.create(writer, telem) as (client, queue):
                low = start = produced()
                got, ends = [], []
                if spec["peek"]:
                    c.sleep(0.1)
                    read(con, client, queue, got, ends)
                if spec["leave"] is not None:
                    c.sleep(spec["leave"])
                else:
                    c.wait_until(lambda: st["settled"], limit=300.0,
                                 what="production ends")
                high = produced()
                read(con, client, queue, got, ends)
            con.runs.append((got, 0, start, high))
            return
        queue = Queue()
        low = produced()
        if kind == "udp":
            with vudp.create(server.udp_clients, telem) as (client, queue):
                client_run(con, client, queue, low, produced())
            return
        if kind == "tcp":
            client = TcpClient(Host("127.0.0.1", ports[3]), queue, reg,
                               telem.app_id, telem)
            for _ in range(rounds):
                ends = client_run(con, client, queue, low)
                low = produced()
                check(len(ends) == 1, "wrong-end",
                      f"{con.name}: {len(ends)} end markers")
            return
        for _ in range(rounds):
            client = WebsocketClient(Host("127.0.0.1", ports[2]), queue, reg,
                                     app_id=telem.app_id, env=telem)
            client_run(con, client, queue, produced())

    def read(con, client, queue, got, ends):
        """Let a file client read to the end of its file."""
        check(client.start(), "not-started", con.name)

        def over():
            con.drain(queue, got, ends)
            return client.state == State.IDLE

        c.wait_until(over, limit=60.0, what=f"{con.name} reads")
        over()
        check(ends[-1:] == [len(got)], "wrong-end",
              f"{con.name}: end markers after {ends} of {len(got)} frames")

    def replay(con, path):
        got, ends = [], []
        queue = Queue()
        client = vfile.FileClient(vfile.FileDecodeTask(path), queue, reg,
                                  telem.app_id, telem)
        read(con, client, queue, got, ends)
        check(len(ends) == 1, "wrong-end", f"{con.name}: {ends}")
        return got

    # -------------------------------------------------------------- run it
    if plan["early"]:
        for app in apps:
            register(app)
    server.start_all()
    tasks = ("time", "telemetry", "stream", "wst", "tcp")
    c.wait_until(lambda: all(daemons.get(n).state == State.RUNNING
                             for n in tasks), limit=20.0, what="running")
    c.wait_until(lambda: set(ports[2:]) <= set(net.NET.listeners), limit=20.0,
                 what="services listening")

    def bring(app):
        c.sleep(app.spec["when"])
        register(app)

    crew = c.Crew()
    if not plan["early"]:
        for app in apps:
            crew.go(bring, app, name=f"brings-{app.name}")
    consumers = [Consumer(k, spec, st)
                 for k, spec in enumerate(plan["consumers"])]
    listeners = c.Crew()
    for con in consumers:
        listeners.go(consume, con, name=f"c-{con.name}")

    def operate():
        for delay, kind, arg in plan["ops"]:
            c.sleep(delay)
            if kind == "scale":
                server.scale_speed((0.5, 1.0, 2.0, 5.0)[arg % 4])
            elif kind == "pause":
                if telem.pause():
                    c.sleep((0.0, 0.02, 0.2)[arg % 3])
                    check(telem.unpause(), "not-resumed")
            elif kind == "restart":
                daemon = daemons.get(("telemetry", "stream")[arg % 2])
                # (a worker that is held up fails to stop in time)
                if not daemon.restart():
                    c.wait_until(lambda: daemon.state == State.IDLE,
                                 limit=60.0, what="stopped")
                    check(daemon.start(), "not-restarted")
            elif kind == "late":
                app = App(100 + len(apps), dict(
                    plan["apps"][0] if plan["apps"] else {
                        "n": 1, "emit": 0.05, "track": True, "enum": False,
                        "inner": 0, "rate": 0.05}, limit=5))
                apps.append(app)
                register(app)
            elif kind == "enum":
                telem.add_enum(UserEnum(f"other{len(ref)}-{arg}", {7: "x"}))
            elif kind == "other":
                ident = writer.add_stream(io.BytesIO())
                c.sleep((0.0, 0.05)[arg % 2])
                writer.remove_stream(ident)
            else:
                class Broken(io.BytesIO):
                    """A stream that can't be written (for long)."""
                    left = arg % 3

                    def write(self, data):
                        if self.left == 0:
                            sim.fault("write_error")
                            raise OSError(28, "no space")
                        self.left -= 1
                        return len(data)

                writer.add_stream(Broken())

    crew.go(operate, name="operator")
    crew.join(300.0, "operations")
    for app in list(apps):
        # (its worker may be slow to begin, or wait for the group)
        c.wait_until(lambda app=app: app.done, limit=120.0,
                     what=f"{app.name} wrote everything")
        daemons.get(app.name).stop()
    # what was published last is emitted soon
    final = {}
    for app in apps:
        names = app.values(app.n)
        for name, value in names.items():
            ident = reg.get_id(f"{app.name}.{name}")
            check(ident is not None, "no-channel", f"{app.name}.{name}")
            app.ids[ident] = name
            final[ident] = ENUM.index(value) if name == "e" else value
    latest = {}
    chain = {}
    seen = {"n": 0}

    def follow():
        """Check everything produced since the last time."""
        while seen["n"] < len(ref):
            frame = canon_raw(ref[seen["n"]])
            seen["n"] += 1
            st.setdefault("all", []).append(frame)
            if frame[1] == 1:
                latest.update(frame[4])
            elif frame[1] == 2:
                for ident, prev, curr in frame[4]:
                    chain.setdefault(ident, []).append((prev, curr))
        return all(latest.get(k) == v for k, v in final.items())

    st["all"] = []
    c.poll(follow, limit=30.0)
    check(follow(), "not-emitted",
          f"{[(k, v, latest.get(k)) for k, v in final.items() if latest.get(k) != v]}"
          f"\n{sim.stacks()}")
    # (events are sent with the dispatch, after what is due)
    c.sleep(0.5)
    if not telem.stop():
        c.wait_until(lambda: telem.state == State.IDLE, limit=60.0,
                     what="telemetry stops")
    c.wait_until(lambda: telem.frame_queue.unfinished_tasks == 0
                 or telem.frame_queue.empty(), limit=60.0, what="all written")
    c.sleep(0.1)
    follow()
    every = st["all"]
    st["last"] = every[-1] if every else None
    st["settled"] = True
    listeners.join(500.0, "consumers")
    check(follow() and len(every) == len(ref), "late-frames", "")

    # ------------------------------------------------------------- verify
    before = 0
    app_id = telem.app_id.get()
    partial = {}
    emitted = set()
    owners = {i: (app, name) for app in apps for i, name in app.ids.items()}
    for app_, kind, when, _, items in every:
        check(app_ == app_id and kind in (1, 2), "wrong-frame",
              f"{app_} {kind}")
        check(when >= before, "time-backwards", f"{when} after {before}: "
              f"{[(f[1], f[2]) for f in every]}")
        if when != before:
            partial, emitted = {}, set()
        before = when
        if kind != 1:
            continue
        for ident, value in items:
            if ident not in owners:
                continue
            app, name = owners[ident]
            if ident in emitted:
                # (dispatched again, at the same time)
                emitted -= set(app.ids)
                partial.pop(app.name, None)
            emitted.add(ident)
            was = partial.get(app.name, range(app.n + 1))
            now = [n for n in was if (
                ENUM.index(app.values(n)["e"]) if name == "e"
                else app.values(n)[name]) == value
                or n == 0 and not value]
            if 0 in was and len(was) <= app.n:
                # (not all of its channels were there yet)
                continue
            check(now, "torn-group" if len(was) <= app.n else "wrong-value",
                  f"{app.name}.{name} = {value} at {when}, others are from "
                  f"writes {list(was)}")
            partial[app.name] = now
    for ident, (app, name) in owners.items():
        if not app.spec["track"] or name == "b":
            continue
        links = chain.get(ident, [])
        want = [app.values(n)[name] for n in range(1, app.n + 1)]
        if name == "e":
            want = [ENUM.index(v) for v in want]
        last = (ENUM.index(ENUM[0]) if name == "e" else 0)
        expect = []
        for v in want:
            if v != last:
                expect.append(v)
            last = v
        got = [curr[0] for _, curr in links]
        check(got == expect, "wrong-events",
              f"{app.name}.{name}: {got} wanted {expect}")
        for a, b in zip(links, links[1:]):
            check(b[0] == a[1], "broken-chain",
                  f"{app.name}.{name}: {a} then {b}")
    for con in consumers:
        at = 0
        for got, low, start, high in con.runs:
            # (frames at the same time may be equal)
            fits = [i for i in range(max(low, at), len(every))
                    if every[i:i + len(got)] == got]
            i = (fits or [None])[0]
            if not got:
                check(start is None or high is None or high - start <= 1,
                      "missed-frames", f"{con.name}: none, attached for "
                      f"{start}..{high}")
                continue
            check(i is not None, "wrong-frames", describe(con, got, every)
                  if i is None else "")
            at = i + len(got)
            if start is not None and high is not None:
                # (one may be about to be written)
                need = high - start - 1
                check(len(got) >= need, "missed-frames",
                      f"{con.name}: {len(got)} frames of {start}..{high}")
                check(any(k <= start + 1 and k + len(got) >= high
                          for k in fits), "missed-frames",
                      f"{con.name}: from {fits} ({len(got)} frames), attached "
                      f"for {start}..{high}")
            elif high is not None and every:
                check(any(k + len(got) == len(every) for k in fits),
                      "missed-end", f"{con.name}: {len(got)} frames from "
                      f"{fits} of {len(every)}")
            sim.probe("run_" + con.spec["kind"])
            sim.probe("frames", len(got))
            sim.note(len(got))
    sim.probe("produced", len(every))
    sim.probe("events", sum(map(len, chain.values())))
    try:
        server.stop_all()
    except AssertionError:
        # something was slow to stop
        server.stop_all()
    tmp.cleanup()


def describe(con, got, every):
    """Where a consumer's frames differ."""
    for k, frame in enumerate(got):
        if frame not in every:
            return f"{con.name}: frame {k} {frame} was never produced"
    where = [every.index(f) for f in got]
    return f"{con.name}: frames {where}"
