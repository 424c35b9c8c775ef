"""C19: websocket services with well-behaved, dying and stalled clients."""

import asyncio
import json
import socket
import traceback

from ..child import sched_cfg
from . import common as c
from .common import check
from .frames import make_env
from .ws import Closed, WsClient

SHRINK = ["clients", "cycles", "frames", "msgs"]
RUNS = {"quick": 700, "thorough": 20000}
REAL = ("EventLoopDaemon, WebsocketDaemon, WebsocketTelemetryDaemon, "
        "WebsocketClient, websocket command service, CommandQueueDaemon, "
        "StreamWriter, websockets, asyncio (selector, sockets and clock are "
        "simulated)")

INVALID = ["", "{", "nope", "[1,", '"', "{'a': 1}", '{"command": }',
           "\x00", '{"a":1} x', "9" * 5000, "[" * 20000]
NOCMD = ["1", "null", "[]", "{}", '"echo"', "true", "1.5", "NaN",
         '{"command": 5}', '{"command": "nosuch"}', '{"command": null}',
         '{"command": ["echo"]}', '{"command": {}}', '{"data": {}}']


def gen(rng, tier):
    def msg():
        kind = rng.choice(("echo", "echo", "echo", "fail", "raise", "slow",
                           "invalid", "nocmd", "binary", "badbin", "frag",
                           "help"))
        return [kind, rng.randrange(1000), rng.choice((0, 0, 0, 1e-3, 0.05))]

    def client():
        kind = rng.choice(("telem", "telem", "telem", "leave", "stall",
                           "vtelem", "cmd", "cmd", "cmd", "die", "half",
                           "junk", "early"))
        out = {"kind": kind, "delay": rng.choice((0, 0, 1e-4, 1e-3, 0.05,
                                                  0.3)),
               "svc": rng.choice(("telem", "cmd")),
               "how": rng.choice(("close", "fin", "rst")),
               "n": rng.randint(0, 6), "salt": rng.randrange(1000)}
        if kind == "cmd":
            out["msgs"] = [msg() for _ in range(rng.randint(1, 6))]
            out["pipeline"] = rng.random() < 0.4
        return out

    cycles = []
    flood = rng.choice((0,) * 38 + (1, 2)) if rng.random() < 0.997 else 3
    for _ in range(rng.choice((1, 1, 2, 3))):
        cycles.append({
            "clients": [client() for _ in range(rng.randint(1, 5))],
            "frames": [[rng.choice((0, 1, 5, 200)),
                        rng.choice((0, 0, 1e-4, 1e-3, 0.02, 0.1))]
                       for _ in range(rng.randint(0, 10))],
            "idle": rng.choice((0, 0, 0, 2.5)),
            # when to stop: None = once everything is settled
            "stop": rng.choice((None, None, None, 0, 1e-4, 1e-3, 0.02, 0.2)),
            "close": rng.choice((None, None, None, 1e-3, 0.05, 0.4)),
            "order": rng.random() < 0.5,
            "twice": rng.random() < 0.2,
        })
    if flood:
        # more than a client that doesn't read (quickly) can be given
        cyc = rng.choice(cycles)
        cyc["flood"] = [17500 if flood == 3 else 600,
                        rng.choice((0, 5)) if flood == 3 else 400]
        more = client()
        more["kind"] = rng.choice(("stall", "trickle"))
        more["delay"] = 0
        for x in cyc["clients"]:
            if x["kind"] == "vtelem":
                x["kind"] = "telem"
        if flood == 3:
            more["kind"] = "trickle"
            cycles = [cyc]
            cyc["clients"] = cyc["clients"][:1]
            cyc["idle"] = 0
        cyc["clients"].append(more)
        cyc["frames"] += [[0, 0.4], [0, 0]]
        if rng.random() < 0.7:
            cyc["stop"] = cyc["close"] = None
    cfg = sched_cfg(rng, max_steps=30_000_000 if flood else 6_000_000)
    if flood:
        cfg["tick"] = 1e-7
        cfg["stall_p"] = 0.0
        cfg["instr"] = 0.0
    return {
        "cfg": cfg,
        "net": {"seg": "none" if flood else rng.choice(
                    ("none", "none", "random", "tiny")),
                "lat_max": rng.choice((1e-4, 1e-3, 1e-3 if flood else 0.02)),
                "rcvbuf": rng.choice((65536, 65536, 65536 if flood
                                      else 4096))},
        "env": rng.random() < 0.6,
        "cycles": cycles,
    }


def allow_swallowed(sim, where, exc):
    """Errors of a connection that its client broke."""
    if isinstance(exc, ConnectionError):
        return True
    # the websockets library's own tasks
    files = [f.filename for f in traceback.extract_tb(exc.__traceback__)] \
        if exc is not None else []
    return "never retrieved" in where and not any(
        "/vtelem/" in f for f in files)


class Peer:
    """What the harness knows about one client."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.got = []
        self.ready = False  # first frame seen
        self.done = False
        self.ws = None
        self.stopping = False
        self.srv = None
        self.replies = []
        self.closed = False


def run(sim, plan):
    from vtelem.daemon import DaemonState
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.websocket_daemon import commandable_websocket_daemon
    from vtelem.frame.framer import Framer
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    from .. import net

    env = make_env(metrics=1.0)
    denv = env if plan["env"] else None
    reg = env.channel_registry
    chan = next(i for i in range(40) if reg.get_item(i) is not None
                and reg.get_item(i).type is Primitive.UINT32)
    writer, queue = default_writer("writer", env=denv)
    framer = Framer(4096, 0.5)
    cmds = CommandQueueDaemon("cmds", denv)
    ports = {"telem": net.NET.port(), "cmd": net.NET.port()}
    svc = {
        "telem": WebsocketTelemetryDaemon(
            "wst", writer, Host("0.0.0.0", ports["telem"]), env),
        "cmd": commandable_websocket_daemon(
            "wsc", cmds, Host("0.0.0.0", ports["cmd"]), denv),
    }
    executed = []

    def echo(data):
        executed.append(data["x"])
        return True, f"echo {data['x']}"

    def fail(data):
        executed.append(data["x"])
        return False, f"fail {data['x']}"

    def broken(data):
        executed.append(data["x"])
        raise KeyError(data["x"])

    def slow(data):
        executed.append(data["x"])
        c.sleep(0.15)
        return True, f"slow {data['x']}"

    cmds.register_consumer("echo", echo, help_msg="echoes")
    cmds.register_consumer("fail", fail)
    cmds.register_consumer("raise", broken)
    cmds.register_consumer("slow", slow)

    number = [0]
    sent = []  # timestamps, in hand-over order
    payload = {}

    def make_frame(extra):
        number[0] += 1
        frame = framer.new_frame("data", float(number[0]))
        for k in range(1 + extra):
            frame.add(chan, Primitive.UINT32, number[0] + k)
        frame.finalize()
        return number[0] * 1000, frame

    def push(extra):
        ident, frame = make_frame(extra)
        data = c.wire(frame)
        payload[len(data).to_bytes(4, "big") + data] = ident
        sent.append(ident)
        queue.put(frame)

    assert writer.start()
    assert cmds.start()
    world = {"token": 0}

    for n, cyc in enumerate(plan["cycles"]):
        cycle(sim, plan, n, cyc, svc, ports, push, sent, payload, executed,
              world, queue, writer, net, make_frame)

    for daemon in (cmds, writer):
        t0 = sim.now
        res = daemon.stop(100)
        check(res, "stop-failed", f"{daemon.name}: {sim.now - t0} s")
    check(len(writer.queues) == 0, "queue-left",
          f"{len(writer.queues)} client queues are still registered")
    if plan["env"]:
        check(env.get_metric("writer.queue_count") == 0, "queue-left",
              f"queue count {env.get_metric('writer.queue_count')}")
    _ = DaemonState, asyncio, socket


def cycle(sim, plan, n, cyc, svc, ports, push, sent, payload, executed,
          world, queue, writer, net, make_frame):
    from vtelem.daemon import DaemonState

    for daemon in svc.values():
        check(daemon.start(), "start-failed", daemon.name)
    workers = {k: d.thread for k, d in svc.items()}
    # (the listening socket appears once the event loop runs)
    for k, port in ports.items():
        c.wait_until(lambda port=port: port in net.NET.listeners,
                     what=f"{k} service listening in cycle {n}")

    peers = [Peer(s) for s in cyc["clients"]]
    crew = c.Crew()
    state = {"stopping": False, "closed": None, "final": None}
    closed_at = [None]

    def telem_loop(peer, count=None):
        ws = peer.ws
        while count is None or len(peer.got) < count:
            opcode, data = ws.recv()
            check(opcode == 2 and data in payload, "bad-frame",
                  f"cycle {n}: a message that is no frame: {data[:40]!r}")
            peer.got.append(payload[data])

    def client(peer):
        spec = peer.spec
        c.sleep(spec["delay"]) if spec["delay"] else None
        kind = peer.kind
        name = ("telem" if kind in ("telem", "leave", "stall", "trickle")
                else "cmd" if kind in ("cmd", "die") else spec["svc"])
        if kind == "vtelem":
            return vclient(peer)
        ws = peer.ws = WsClient(ports[name], limit=60.0)
        try:
            try:
                ws.connect()
            except OSError:
                check(state["stopping"], "refused",
                      f"{name} refused a connection while running")
                return None
            peer.srv = ws.srv
            if kind == "early":
                sim.fault("client_reset_at_connect")
                if spec["salt"] & 1:
                    c.sleep(1e-4)
                ws.sock._abort()
                return None
            if kind == "half":
                req = ws.request()
                sim.fault("client_partial_handshake")
                ws.raw(req[:spec["salt"] % len(req)])
                if spec["n"] & 1:
                    c.sleep(0.01 * spec["n"])
                    ws.close("fin" if spec["how"] == "close" else
                             spec["how"])
                return None
            if kind == "junk":
                sim.fault("client_bad_handshake")
                ws.raw((b"GET / HTTP/1.1\r\n\r\n", b"\x00" * 50,
                        b"POST /x HTTP/1.0\r\nA: b\r\n\r\n",
                        b"\r\n\r\n")[spec["salt"] % 4])
                try:
                    while True:
                        ws._fill()
                except (Closed, OSError):
                    pass
                ws.sock.close()
                return None
            ws.handshake()
            if kind == "telem":
                telem_loop(peer)
            elif kind == "leave":
                telem_loop(peer, spec["n"])
                sim.fault("client_leaves")
                ws.close(spec["how"])
            elif kind == "stall":
                sim.fault("client_stalls")
                c.wait_until(lambda: state["stopping"], limit=300.0)
            elif kind == "trickle":
                sim.fault("client_trickles")
                while not state["stopping"]:
                    telem_loop(peer, len(peer.got) + 1)
                    peer.ready = True
                    c.sleep(0.5)
            elif kind == "die":
                text = json.dumps({"command": "echo", "data": {"x": "die"}})
                full = ws.frame(1, text.encode())
                sim.fault("client_dies_mid_message")
                if spec["n"] == 0:
                    # invalid utf-8 in a text message, an unmasked frame...
                    full = ws.frame(1, b"\xff\xfe")
                    ws.raw(full)
                else:
                    ws.raw(full[:spec["salt"] % len(full)])
                c.sleep(0.001 * spec["n"])
                ws.close("rst" if spec["how"] == "close" else spec["how"])
            else:
                commands(peer)
        except Closed:
            peer.closed = True
            if kind in ("telem", "cmd"):
                check(state["stopping"] or (closed_at[0] is not None
                                            and kind == "telem"),
                      "dropped",
                      f"cycle {n}: {kind} client lost its connection "
                      f"(code {ws.close_code}) while served")
            try:
                ws.sock.close()
            except OSError:
                pass
        finally:
            peer.done = True
        return None

    def commands(peer):
        ws, spec = peer.ws, peer.spec
        wait = []
        for kind, salt, pause in spec["msgs"]:
            world["token"] += 1
            token = f"t{world['token']}"
            cmd = {"command": kind, "data": {"x": token}}
            want = None
            if kind == "echo":
                want = (True, f"echo {token}")
            elif kind == "fail":
                want = (False, f"fail {token}")
            elif kind == "raise":
                want = (False, None)
            elif kind == "slow":
                want = (True, f"slow {token}")
            elif kind in ("binary", "frag"):
                cmd["command"] = "echo"
                want = (True, f"echo {token}")
            elif kind == "help":
                cmd["data"] = {"command": "echo"}
                want = (True, '{"echo": ["echoes"]}')
                token = None
            else:
                token = None
                want = (False, None)
            text = json.dumps(cmd)
            if kind == "invalid":
                text = INVALID[salt % len(INVALID)]
            elif kind == "nocmd":
                text = NOCMD[salt % len(NOCMD)]
            elif kind == "binary":
                text = text.encode()
            elif kind == "badbin":
                text = (b"\xff\xfe\xfd", b"\x80abc", b"")[salt % 3]
            t0 = sim.now
            ws.send(text, 1 + salt % 4 if kind == "frag" else 1, salt % 2)
            wait.append((kind, token, want, text, t0))
            if pause:
                c.sleep(pause)
            if not spec["pipeline"]:
                reply(peer, wait.pop())
        for item in wait:
            reply(peer, item)
        # nothing else may arrive
        ws.sock.settimeout(0.3)
        try:
            extra = ws.recv()
            check(False, "extra-reply", f"cycle {n}: {extra}")
        except TimeoutError:
            pass
        ws.sock.settimeout(60.0)
        peer.ready = True
        ws.close(spec["how"])

    def reply(peer, item):
        kind, token, want, text, t0 = item
        opcode, data = peer.ws.recv()
        took = sim.now - t0
        check(took < 20.0, "slow-reply", f"{kind}: {took:.2f} s")
        try:
            res = json.loads(data)
        except ValueError:
            check(False, "bad-reply", repr(data))
        check(isinstance(res, dict) and set(res) == {"success", "message"}
              and isinstance(res["success"], bool)
              and isinstance(res["message"], str), "bad-reply", repr(res))
        if took >= 1.99 and res["message"] == "Command result not known.":
            sim.probe("result_unknown")
            return
        check(res["success"] is want[0] and want[1] in
              (None, res["message"]), "wrong-reply",
              f"cycle {n}: {kind} {text[:60]!r} got {res}, wanted {want}")
        if token is not None:
            check(executed.count(token) == 1, "not-once",
                  f"{kind} {token}: executed {executed.count(token)} times")
        else:
            check(kind == "help" or not res["success"], "wrong-reply",
                  f"{kind} {res}")
        peer.replies.append(kind)

    def vclient(peer):
        """The repository's own client."""
        daemon = svc["telem"]
        vcl, out = daemon.client(mtu=4096)
        peer.vcl = vcl
        seen = peer.got
        try:
            for attempt in range(1 + peer.spec["n"] % 2):
                check(vcl.start(), "start-failed", "websocket client")
                c.wait_until(lambda: vcl.state != DaemonState.STARTING,
                             step_s=1e-3)
                begin = len(seen)
                final = attempt == peer.spec["n"] % 2
                end = sim.now + 0.2

                def over():
                    if final:
                        return state["stopping"] or closed_at[0] is not None
                    return sim.now > end

                while not over():
                    while not out.empty():
                        seen.append(out.get().header.timestamp)
                        peer.ready = final
                    c.sleep(0.01)
                t0 = sim.now
                res = vcl.stop()
                took = sim.now - t0
                check(res or took > 7.9, "stop-failed",
                      f"websocket client: {took:.2f} s\n" + sim.stacks())
                c.wait_until(lambda: vcl.state == DaemonState.IDLE,
                             what="websocket client ended")
                check(not asyncio.all_tasks(vcl.eloop), "task-left",
                      f"client: {asyncio.all_tasks(vcl.eloop)}")
                check(not vcl.connected, "task-left", "still connected")
                while not out.empty():
                    seen.append(out.get().header.timestamp)
                check(c.find_run(seen[begin:], sent) is not None, "gap",
                      f"websocket client got {seen[begin:]}, of {sent}")
                del seen[:begin]
        finally:
            peer.done = True

    def produce():
        for k, (extra, pause) in enumerate(cyc["frames"]):
            if cyc.get("flood") and k == len(cyc["frames"]) - 1:
                ident, frame = make_frame(cyc["flood"][1])
                data = c.wire(frame)
                payload[len(data).to_bytes(4, "big") + data] = ident
                for _ in range(cyc["flood"][0]):
                    sent.append(ident)
                    queue.put(frame)
                sim.fault("flood")
            if cyc["idle"] and k == len(cyc["frames"]) // 2:
                c.sleep(cyc["idle"])
            push(extra)
            if pause:
                c.sleep(pause)

    for k, peer in enumerate(peers):
        crew.go(client, peer, name=f"{peer.kind}{k}")
    prod = c.Crew()
    prod.go(produce, name="prod")
    if cyc["close"] is not None:
        c.sleep(cyc["close"])
        closed_at[0] = sim.now
        sim.fault("close_clients")
        live = [p for p in peers if p.kind in
                ("telem", "leave", "stall", "trickle", "vtelem")]
        count = svc["telem"].close_clients()
        # (the repository's client may have connected twice)
        check(0 <= count <= len(live) + sum(
            p.kind == "vtelem" for p in live), "bad-count",
            f"closed {count} of {len(live)} clients")
        # clients connected later are served normally
    if cyc["stop"] is None:
        prod.join(what="hand-over of frames")

        def settled(p):
            if closed_at[0] is not None and p.kind in ("telem", "vtelem"):
                return True
            if p.kind == "telem":
                return p.done or bool(p.got)
            if p.kind == "vtelem":
                return p.done or p.ready
            if p.kind == "leave":
                return p.done
            return p.done if p.kind in ("cmd", "die", "early") else True

        if cyc.get("flood") and closed_at[0] is None:
            big = cyc["flood"][0] > 10000
            for p in peers:
                if p.srv is not None and p.kind in (
                        ("trickle",) if big else ("stall",)):
                    c.wait_until(lambda: p.srv._closed, limit=120.0,
                                 what=f"the end of a slow client ({p.kind})")
                    sim.probe("slow_client_dropped")
        end = sim.now + 90.0
        while not all(settled(p) for p in peers):
            c.reraise()
            check(sim.now < end, "no-progress",
                  f"cycle {n}: not served: "
                  f"{[(p.kind, p.got, p.done) for p in peers]}\n"
                  + sim.stacks())
            push(0)
            c.sleep(0.05)
        push(1)
        c.wait_until(queue.empty, what="frames written")
        last = sent[-1]
        if closed_at[0] is None:
            for p in peers:
                if p.kind in ("telem", "vtelem") and not p.done:
                    c.wait_until(lambda: last in p.got, what=f"{p.kind} "
                                 f"client getting the last frame")
    else:
        c.sleep(cyc["stop"])
        sim.fault("stop_while_active")
    # (the end of every client's life is not an error from here on)
    state["stopping"] = True
    conns = [p for p in peers if p.srv is not None]

    results = {}

    def stop(name):
        daemon = svc[name]
        c.wait_until(lambda: daemon.state != DaemonState.STARTING,
                     step_s=1e-3)
        t0 = sim.now
        res = daemon.stop()
        took = sim.now - t0
        check(took < 30.0, "slow-stop", f"{name}: {took:.2f}")
        check(res or took >= 7.9 or not workers[name].is_alive(),
              "stop-failed", f"{name}: {took:.2f} s\n" + sim.stacks())
        results[name] = res
        c.wait_until(lambda: not workers[name].is_alive(),
                     what=f"{name} worker ended")
        check(daemon.state == DaemonState.IDLE, "stop-failed",
              f"{name}: {daemon.state}")
        if cyc["twice"]:
            check(daemon.stop() is False, "stop-failed", "second stop")
        check(ports[name] not in net.NET.listeners, "still-listening", name)
        tasks = asyncio.all_tasks(daemon.eloop)
        check(not tasks, "task-left", f"{name}: {tasks}")
        for p in conns:
            if p.ws is not None and p.ws.port == ports[name]:
                if not p.srv._closed and not p.srv.watched:
                    # accepted, but dropped before anything could use it:
                    # the interpreter closes sockets nobody refers to
                    sim.probe("dropped_at_accept")
                    p.srv._abort()
                check(p.srv._closed, "connection-left",
                      f"{name}: the connection of a {p.kind} client is "
                      "still open after the service stopped")

    names = list(svc)
    if cyc["order"]:
        names.reverse()
    if cyc["twice"]:
        stoppers = c.Crew()
        for name in names:
            stoppers.go(stop, name, name=f"stop-{name}")
        stoppers.join(what="stop of the services")
    else:
        for name in names:
            stop(name)
    prod.join(what="hand-over of frames")
    c.wait_until(queue.empty, what="frames written")
    for p in peers:
        # stalled clients and partial handshakes see the end now
        if p.kind == "half" and p.ws is not None and not p.ws.sock._closed:
            p.ws.sock.close()
    crew.join(what="clients")
    for p in peers:
        if p.kind in ("telem", "leave"):
            check(c.find_run(p.got, sent) is not None, "gap",
                  f"cycle {n}: {p.kind} client got {p.got} of {sent}")
            sim.note(len(p.got) * 31 + (p.got[0] if p.got else 0))
        sim.probe("frames", len(p.got))
        sim.probe("replies", len(p.replies))
    for p in peers:
        if p.ws is not None and not p.ws.sock._closed:
            p.ws.sock.close()
    check(len(set(executed)) == len(executed), "not-once", str(executed))
