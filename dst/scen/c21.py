"""C21: the whole server: all services, applications, clients, control."""

import json
import queue as _queue
import socket
import struct
import threading
from urllib.parse import urlencode

from ..child import sched_cfg
from . import common as c
from .common import check
from .ws import Closed, WsClient

SHRINK = ["ops", "clients", "apps", "udp"]
RUNS = {"quick": 600, "thorough": 12000}
REAL = ("TelemetryServer with every daemon, service, registry and factory it "
        "is made of, the applications' threads, http.server, socketserver, "
        "websockets and asyncio (sockets, selector, threads and clock are "
        "simulated)")

DAEMONS = ("time", "telemetry", "stream", "websocket_telemetry",
           "tcp_telemetry", "command", "websocket_command", "app0")
READERS = ("tcp", "tcp", "wst", "wst")


def gen(rng, tier):
    def op():
        kind = rng.choice(("scale", "scale", "daemon", "daemon", "daemon",
                           "daemon", "all", "states", "app", "udpadd",
                           "udprm", "chan", "id", "reg", "bad"))
        return [rng.choice((0, 0, 1e-3, 0.02, 0.1, 0.3)), kind,
                rng.randrange(10000),
                rng.choice(("direct", "http", "http", "ws", "ws"))]

    def client():
        return {"kind": rng.choice(READERS),
                "delay": rng.choice((0, 0, 1e-4, 0.02, 0.2)),
                "leave": rng.choice((None, None, None, "fin", "rst",
                                     "stall", "half")),
                "n": rng.randrange(6)}

    def app():
        return {"when": rng.choice(("before", "before", "during", "during",
                                    "after", "nested")),
                "rate": rng.choice((0.03, 0.05, 0.1, 0.4)),
                "setup": rng.choice((0, 0, 0.01, 0.3)),
                "work": rng.choice((0, 0, 0, 0.01, 0.2)),
                "in_group": rng.random() < 0.2,
                "delay": rng.choice((0, 0, 1e-5, 1e-4, 1e-3, 0.02, 0.1))}

    cfg = sched_cfg(rng, max_steps=24_000_000)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    cfg["hot_max"] = min(cfg.get("hot_max", 0), 0.05)
    if cfg["strategy"] == "pct":
        # periodic workers can take all of the time there is: be fair
        cfg.update(strategy="rw", p=0.0)
    return {
        "cfg": cfg,
        "net": {"seg": rng.choice(("none", "none", "random")),
                "lat_max": rng.choice((1e-4, 1e-3, 0.02))},
        "tick": rng.choice((0.02, 0.05)),
        "telem": rng.choice((0.05, 0.1, 0.2)),
        "metrics": rng.choice((None, 0.1, 0.25, 0.5)),
        # http, websocket command, websocket telemetry, tcp telemetry
        "on": [rng.random() < 0.9 for _ in range(4)],
        "addr": [rng.random() < 0.7 for _ in range(4)],
        "basis": rng.random() < 0.8,
        "udp": rng.choice((None, 0, 1, 2)),
        "apps": [app() for _ in range(rng.choice((0, 1, 1, 2, 3)))],
        "clients": [client() for _ in range(rng.randint(0, 3))],
        "ops": [[op() for _ in range(rng.randint(0, 4))]
                for _ in range(rng.choice((1, 1, 2, 3)))],
        "scale0": rng.choice((None, None, 1.0, 0.1, 2.0)),
        # when to shut down: None = once everything was seen to be served
        "end_at": rng.choice((None, None, 0, 1e-4, 1e-3, 0.02, 0.1, 0.4)),
        "end": rng.choice(("stop", "stop", "http", "http", "timeout",
                           "context", "twice", "both")),
        "full": rng.random() < 0.1,
    }


def allow_swallowed(sim, where, exc):
    """Errors of a connection that its client broke, slow shutdowns."""
    return isinstance(exc, ConnectionError) or getattr(
        sim, "slow_end", False) and isinstance(exc, AssertionError)


class App:
    """One application: what its functions saw."""

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec
        self.setups = []  # thread of every completed setup
        self.loops = 0
        self.active = 0
        self.registered = None
        self.group = None


class Reader:
    """A telemetry client."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.data = bytearray()  # tcp
        self.got = []  # websocket messages
        self.served = self.refused = False
        self.left = False
        self.ended = False
        self.done = False

    def frames(self):
        if self.kind == "tcp":
            return c.split_frames(self.data, "tcp client", True)[0]
        return list(self.got)


def run(sim, plan):
    from vtelem.daemon import DaemonOperation, DaemonState
    from vtelem.enums.primitive import Primitive
    from vtelem.mtu import Host
    from vtelem.telemetry.server import TelemetryServer
    from vtelem.types.telemetry_server import Service, TelemetryServices

    from .. import net

    IDLE, STARTING = DaemonState.IDLE, DaemonState.STARTING
    st = {"begun": False, "ending": False, "ended": False, "unknown": False,
          "touched": set()}

    # ------------------------------------------------------------ server
    def service(name, k):
        host = Host("0.0.0.0", net.NET.port()) if plan["addr"][k] else None
        return Service(name, host, plan["on"][k])

    udp_socks = []

    def udp_receiver():
        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        sock.bind(("127.0.0.1", 0))
        udp_socks.append(sock)
        return Host("127.0.0.1", sock.getsockname()[1])

    udp = plan["udp"]
    server = TelemetryServer(
        plan["tick"], plan["telem"], plan["metrics"],
        0.5 if plan["basis"] else None,
        TelemetryServices(
            service("http", 0), service("websocket_command", 1),
            service("websocket_telemetry", 2), service("tcp_telemetry", 3),
            None if udp is None else [udp_receiver() for _ in range(udp)]))
    on = dict(zip(("http", "wsc", "wst", "tcp"), plan["on"]))
    http_port = server.server.server_address[1]
    ports = {"http": http_port}
    if on["wsc"]:
        ports["wsc"] = server.daemons.get("websocket_command").address[1]
    if on["wst"]:
        ports["wst"] = server.daemons.get("websocket_telemetry").address[1]
    if on["tcp"]:
        ports["tcp"] = server.daemons.get("tcp_telemetry").address[1]
    telem = server.daemons.get("telemetry")
    stream = server.daemons.get("stream")
    cmds = server.daemons.get("command")
    names = set(server.daemons.daemons)
    check(names == {"time", "telemetry", "stream", "command"} | {
        n for n, k in (("websocket_command", "wsc"),
                       ("websocket_telemetry", "wst"),
                       ("tcp_telemetry", "tcp")) if on[k]},
        "wrong-daemons", str(sorted(names)))
    reference = _queue.Queue()
    stream.add_queue(reference)
    chan = telem.add_channel("user", Primitive.UINT32, 0.1, True)

    # ------------------------------------------------------- applications
    apps = []

    def make_app(spec):
        app = App(f"app{len(apps)}", spec)
        apps.append(app)
        return app

    def register(app):
        spec = app.spec

        def setup(groups, data):
            check(st["begun"], "app-early", f"{app.name}: setup before start")
            check(not st["ended"], "app-late", f"{app.name}: setup")
            check(app.active == 0, "app-twice", f"{app.name}: setup")
            app.active += 1
            if spec["setup"]:
                c.sleep(spec["setup"])
            if app.group is None:
                app.group = groups.create_group(app.name)
                for name in "ab":
                    groups.add_channel(app.group, name, Primitive.UINT32,
                                       0.1, name == "b")
            data["count"] = 0
            app.active -= 1
            app.setups.append(threading.current_thread())

        def loop(groups, data):
            check(app.setups and app.setups[-1] is
                  threading.current_thread(), "app-setup",
                  f"{app.name}: a loop without its setup")
            check(not st["ended"], "app-late", f"{app.name}: loop")
            check(app.active == 0, "app-twice", f"{app.name}: loop")
            app.active += 1
            with groups.group(app.group) as values:
                check(values["a"] == values["b"], "app-data", str(values))
                values["a"] += 1
                values["b"] += 1
                if spec["in_group"] and spec["work"]:
                    c.sleep(spec["work"])
            if spec["work"] and not spec["in_group"]:
                c.sleep(spec["work"])
            data["count"] += 1
            app.loops += 1
            app.active -= 1
            if spec["when"] == "nested" and app.loops == 2 and "child" not in (
                    data):
                data["child"] = make_app({**spec, "when": "child"})
                register(data["child"])

        t0 = sim.now
        app.registered = bool(server.register_application(
            app.name, spec["rate"], setup, loop))
        check(app.registered, "not-registered", app.name)
        check(sim.now - t0 < 30.0, "slow-operation",
              f"register: {sim.now - t0:.2f} s")

    # ------------------------------------------------------------ clients
    def exchange(data, limit=60.0):
        """One http request; (status, body), or None if the server ended."""
        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(("127.0.0.1", http_port))
            sock.settimeout(limit)
            sock.sendall(data)
            got = b""
            while True:
                part = sock.recv(65536)
                if not part:
                    break
                got += part
        except ConnectionError:
            check(st["ending"], "http-failed", "connection refused or reset")
            return None
        except TimeoutError:
            check(st["ending"], "no-progress",
                  f"no response within {limit} s\n{sim.stacks()}")
            return None
        finally:
            sock.close()
        if not got and st["ending"]:
            return None
        head, _, body = got.partition(b"\r\n\r\n")
        check(head.startswith(b"HTTP/1.0 "), "bad-response", repr(got[:80]))
        return int(head.split(b" ")[1]), body.decode()

    def get(path):
        return exchange(f"GET {path} HTTP/1.0\r\n\r\n".encode())

    def post(path, fields):
        body = urlencode(fields, True).encode()
        return exchange(
            f"POST {path} HTTP/1.0\r\nContent-Length: {len(body)}\r\n"
            "Content-Type: application/x-www-form-urlencoded\r\n\r\n"
            .encode() + body)

    def ws_command(cmd):
        """(success, message), or None if the connection ended."""
        ws = WsClient(ports["wsc"])
        try:
            # (it isn't listening yet right after the start)
            c.poll(lambda: st["ending"] or ports["wsc"] in net.NET.listeners,
                   5.0, 1e-3)
            ws.connect()
            ws.sock.settimeout(60.0)
            ws.handshake()
            ws.send(json.dumps(cmd))
            res = json.loads(ws.recv()[1])
            ws.close("fin")
            return res["success"], res["message"]
        except (Closed, ConnectionError):
            check(st["ending"] or "websocket_command" in st["touched"],
                  "command-failed", "the command connection ended")
            return None
        except TimeoutError:
            check(st["ending"] or "websocket_command" in st["touched"],
                  "no-progress", f"no result within 60 s\n{sim.stacks()}")
            return None
        finally:
            ws.sock.close()

    def command(via, name, data):
        """Run a command; (success, message) or None if not known."""
        t0 = sim.now
        if via == "http" and on["http"]:
            res = post("/command", {"command": name, **data})
            if res is not None:
                if res[0] == 400:
                    res = (False, res[1])
                else:
                    check(res[0] == 200, "bad-response", str(res))
                    res = (True, res[1])
        elif via == "ws" and on["wsc"]:
            res = ws_command({"command": name, "data": data})
        else:
            res = cmds.execute({"command": name, "data": data})
        check(sim.now - t0 < 60.0, "slow-operation",
              f"{name} {data}: {sim.now - t0:.2f} s")
        if res is not None and not res[0] and (
                "Command result not known." in res[1]):
            check(sim.now - t0 >= 1.9, "early-timeout", f"{name} {data}")
            sim.probe("result_unknown")
            res = None
        if res is None:
            st["unknown"] = True
        return res

    def reader(peer):
        spec = peer.spec
        if spec["delay"]:
            c.sleep(spec["delay"])
        try:
            (read_tcp if peer.kind == "tcp" else read_ws)(peer)
        except TimeoutError:
            check(False, "connection-left",
                  f"{peer.kind} client: its connection did not end\n"
                  + sim.stacks())
        except ConnectionRefusedError:
            # its service doesn't listen (yet)
            peer.refused = peer.ended = True
        except (Closed, ConnectionError):
            # its service ended
            peer.ended = True
        finally:
            peer.done = True

    def enough(peer):
        spec = peer.spec
        if spec["leave"] is None or len(peer.frames()) < spec["n"]:
            return False
        if spec["leave"] == "stall":
            spec["leave"] = None
            sim.fault("client_stalls")
            c.sleep(1.0)
            return False
        peer.left = True
        sim.fault("client_leaves")
        return True

    def read_tcp(peer):
        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(("127.0.0.1", ports["tcp"]))
            peer.served = True
            sock.settimeout(900.0)
            while not enough(peer):
                data = sock.recv(65536)
                if not data:
                    peer.ended = True
                    return
                peer.data += data
            if peer.spec["leave"] == "rst":
                sock._abort()
        finally:
            sock.close()

    def read_ws(peer):
        ws = WsClient(ports["wst"])
        try:
            ws.connect()
            ws.sock.settimeout(900.0)
            if peer.spec["leave"] == "half":
                # never completes the opening handshake
                ws.sock.sendall(ws.request()[:20])
                peer.left = True
                ws._fill()
            ws.handshake()
            peer.served = True
            while not enough(peer):
                opcode, data = ws.recv()
                check(opcode == 2, "bad-frame", "a text message")
                size = struct.unpack(">I", data[:4])[0]
                check(len(data) == 4 + size, "bad-frame", repr(data[:40]))
                peer.got.append(data[4:])
            ws.close("rst" if peer.spec["leave"] == "rst" else "fin")
        finally:
            ws.sock.close()

    # ---------------------------------------------------------- operations
    def timed(what, fn, *args, limit=45.0):
        t0 = sim.now
        res = fn(*args)
        check(sim.now - t0 < limit, "slow-operation",
              f"{what}: {sim.now - t0:.2f} s")
        return res

    OPERS = ("pause", "unpause", "stop", "start", "restart", "pause", "stop")

    def operate(op):
        _, kind, salt, via = op
        if kind == "scale":
            scalar = (1.0, 2.0, 0.5, 0.1, 10.0, 0.0, -1.0)[salt % 7]
            timed("scale", server.scale_speed, scalar)
        elif kind in ("daemon", "all"):
            oper = OPERS[salt % len(OPERS)]
            if st["ending"] and oper in ("start", "restart"):
                return  # (it may begin after the shutdown)
            known = sorted(server.daemons.daemons)
            which = [known[salt // 7 % len(known)]]
            if kind == "all":
                which = ["all"]
                if salt % 5:
                    oper = ("pause", "unpause")[salt % 2]
            if oper in ("stop", "restart"):
                st["touched"].update(known if which == ["all"] else which)
                sim.fault("daemon_" + oper)
            st["flight"] = st.get("flight", 0) + 1
            try:
                if via == "direct":
                    for name in which:
                        if name == "all":
                            timed(oper, server.daemons.perform_str_all, oper)
                        else:
                            timed(oper, server.daemons.perform_str, name,
                                  oper)
                    return
                res = command(via, "daemon", {"operation": oper,
                                              "daemons": which})
            finally:
                st["flight"] -= 1
            if res is not None:
                text = res[1]
                if not res[0] and via == "http" and on["http"]:
                    # (within the error's page)
                    at = text.find(" - {")
                    check(at >= 0, "wrong-reply", f"{oper} {which}: {res}")
                    text = text[at + 3:text.rindex("}") + 1]
                try:
                    obj = json.loads(text)
                except ValueError:
                    check(False, "wrong-reply", f"{oper} {which}: {res}")
                check(set(obj) >= set(known) | {"results"}, "wrong-reply",
                      str(res))
                check(res[0] == all(obj["results"].values()), "wrong-reply",
                      str(res))
        elif kind == "states":
            res = command(via, "daemon", {"operation": "states"})
            if res is not None:
                check(res[0] and set(json.loads(res[1])) >= names,
                      "wrong-reply", str(res))
        elif kind == "app":
            if not st["ending"]:
                register(make_app({"when": "op", "rate": 0.05, "setup": 0,
                                   "work": 0, "in_group": False}))
        elif kind == "udpadd":
            host = udp_receiver()
            res = command(via, "udp", {"operation": "add",
                                       "host": host.address,
                                       "port": host.port})
            check(res is None or res[0], "wrong-reply", str(res))
        elif kind == "udprm":
            for ident in list(server.udp_clients.clients)[:1]:
                command(via, "udp", {"operation": "remove", "id": ident})
        elif kind == "chan":
            # (numbers are strings when sent over http)
            res = command("ws" if via == "http" else via, "channel",
                          {"operation": "increment", "channel_name": "user"})
            if res is not None:
                check(res[0], "wrong-reply", str(res))
                st["user"] = st.get("user", 0) + 1
            else:
                st["user_max"] = st.get("user_max", 0) + 1
        elif kind == "id":
            if on["http"]:
                res = get("/id")
                check(res in (None, (200, str(telem.app_id.get()))),
                      "bad-response", str(res))
        elif kind == "reg":
            if on["http"]:
                res = get("/registries")
                if res is not None:
                    check(res[0] == 200 and set(json.loads(res[1])) >= {
                        "channel", "enum", "type", "channel_groups",
                        "services"}, "bad-response", str(res)[:200])
        else:
            res = command(via, ("nosuch", "daemon", "channel", "udp")[
                salt % 4], {"operation": "nosuch"})
            check(res is None or not res[0], "wrong-reply", str(res))

    def actor(ops):
        c.wait_until(lambda: st.get("up") or st["ending"], step_s=1e-4)
        for op in ops:
            if op[0]:
                c.sleep(op[0])
            if st["ending"] and op[1] in ("id", "reg") or st["ended"]:
                return
            operate(op)

    # -------------------------------------------------------------- begin
    for spec in plan["apps"]:
        if spec["when"] in ("before", "nested"):
            register(make_app(spec))
    st["begun"] = True
    peers = [Reader(s) for s in plan["clients"] if on[s["kind"]]]
    crew = c.Crew()
    boss = c.Crew()
    how = plan["end"]
    if not on["http"] and how in ("http", "both"):
        how = "stop"

    def attempt(fn, *args):
        """A shutdown; slow workers may make it fail, but not too early."""
        t0 = sim.now
        try:
            return fn(*args)
        except AssertionError:
            check(sim.now - t0 >= 1.99, "stop-failed",
                  f"{fn.__name__}: {sim.now - t0:.2f} s\n{sim.stacks()}")
            sim.probe("slow_stop")
        finally:
            check(sim.now - t0 < 100.0 or fn != server.stop_all,
                  "slow-operation", f"stop: {sim.now - t0:.2f} s")
        return None

    def served():
        """What the main thread of a program does."""
        if how == "context":
            def body():
                with server.booted():
                    st["up"] = True
                    if plan["scale0"] is not None:
                        timed("scale", server.scale_speed, plan["scale0"])
                    c.wait_until(lambda: st["ending"], limit=1e6)
                    st["t_end"] = sim.now
            attempt(body)
        else:
            timed("start", server.start_all)
            st["up"] = True
            if plan["scale0"] is not None:
                timed("scale", server.scale_speed, plan["scale0"])
            if how == "timeout" and plan["end_at"] is not None:
                settle()
                st["ending"] = True
                attempt(server.await_shutdown, plan["end_at"] + 1e-3)
            else:
                attempt(server.await_shutdown, None)
        st["returned"] = True

    def settle():
        """No operation that may start something is under way."""
        def quiet():
            return not st.get("flight") and not (
                st["unknown"] and cmds.queue.unfinished_tasks
                and cmds.state != IDLE)
        c.wait_until(quiet, limit=200.0, what="operations")

    boss.go(served, name="main2")
    for spec in plan["apps"]:
        if spec["when"] in ("during", "after"):
            def later(spec=spec):
                if spec["when"] == "after":
                    c.wait_until(lambda: st.get("up"), step_s=1e-4)
                if spec["delay"]:
                    c.sleep(spec["delay"])
                if not st["ending"]:
                    register(make_app(spec))
            crew.go(later, name="registers")
    readers = c.Crew()

    def connect_all():
        for k, peer in enumerate(peers):
            readers.go(reader, peer, name=f"{peer.kind}{k}")

    def go_clients():
        c.wait_until(lambda: st.get("up"), step_s=1e-3)
        connect_all()

    crew.go(go_clients, name="clients")
    for k, ops in enumerate(plan["ops"]):
        crew.go(actor, ops, name=f"ops{k}")

    c.wait_until(lambda: st.get("up"), what="start of the server")
    if plan["end_at"] is None:
        crew.join(300.0, "operations")
        repair_and_check(sim, plan, server, st, on, ports, peers, apps, get,
                         post, ws_command, command, timed, readers, reader,
                         names, chan, Reader, cmds, DaemonOperation,
                         DaemonState, settle, udp_socks)
    elif how != "timeout":
        c.sleep(plan["end_at"])

    # ----------------------------------------------------------- shut down
    if plan["full"] and (how != "timeout" or plan["end_at"] is None):
        # the writer was stopped and frames pile up
        stream.stop()
        for _ in range(300):
            try:
                frame = telem.framer.new_frame("data", telem.get_time())
                frame.finalize(True)
                telem.frame_queue.put(frame, False)
            except _queue.Full:
                break
        c.sleep(2.5 * plan["telem"])
        sim.fault("frame_queue_full")
    settle()
    st["ending"] = True
    ender = c.Crew()
    sim.slow_end = True
    if how in ("stop", "twice", "both"):
        ender.go(attempt, server.stop_all, name="stops")
    if how == "timeout" and plan["end_at"] is None:
        ender.go(attempt, server.stop_all, name="stops")
    if how == "twice":
        ender.go(attempt, server.stop_all, name="stops2")
    if how in ("http", "both"):
        def ask():
            t0 = sim.now
            res = post("/shutdown", {"app_id": telem.app_id.get()})
            if sim.now - t0 >= 1.99:
                sim.probe("slow_stop")
            if how == "http":
                # (a slow worker makes it fail)
                check(res is not None and res[0] in (200, 500),
                      "bad-response", str(res))
                if res[0] == 200:
                    check(res[1] == "success", "bad-response", str(res))
        ender.go(ask, name="asks")
    ender.join(200.0, "shutdown")
    boss.join(200.0, "shutdown (main)")
    crew.join(200.0, "operations")

    # every worker ends
    def workers():
        """Everything but idle executors, http handlers and our threads."""
        own = {id(t) for k in (crew, boss, readers, ender)
               for t in k.threads}
        return [t.name for t in threading.enumerate()
                if t.is_alive() and id(t) not in own
                and t is not threading.main_thread()
                and "ThreadPoolExecutor" not in t.name
                and "process_request" not in t.name
                and not t.name.startswith("asyncio_")]

    c.wait_until(lambda: not workers(), limit=40.0,
                 what=f"end of the workers {workers()}")
    st["ended"] = True
    for name, state in server.daemons.states(False).items():
        check(state == IDLE, "not-idle", f"{name}: {state}")
    check(server.get_state() == IDLE, "not-idle", "http")
    if sim.probes.get("slow_stop"):
        # a worker that outlasted the stop time-out couldn't be closed, or may
        # have added an output: another shutdown does
        server.stop_all()
    left = sorted(net.NET.listeners)
    check(not left, "still-listening", f"{left} of {ports}")
    check(not server.udp_clients.clients, "socket-left", "udp outputs")
    readers.join(60.0, "telemetry clients")

    # every client got what was sent, without gaps
    frames = []
    while not reference.empty():
        frames.append(c.wire(reference.get()))
    order = {}
    for k, raw in enumerate(frames):
        order.setdefault(raw, []).append(k)

    def contiguous(got, what):
        if not got:
            return
        ok = any(frames[k:k + len(got)] == got
                 for k in order.get(got[0], ()))
        check(ok, "gap", f"{what}: {len(got)} frames of {len(frames)}, "
              f"known: {[order.get(r) for r in got]}")

    for peer in peers:
        contiguous(peer.frames(), f"{peer.kind} client")
        sim.probe("frames_read", len(peer.frames()))
    log = {}
    for _, port, data in net.NET.udp_log:
        log.setdefault(port, []).append(data[4:])
    for sock in udp_socks:
        grams = log.get(sock.getsockname()[1], [])[1:]
        contiguous(grams, "udp receiver")
        sim.probe("frames_udp", len(grams))
    for raw in frames:
        got = telem.decode_frame(raw, len(raw), telem.app_id)
        check(got is not None, "bad-frame", repr(raw[:40]))
    for app in apps:
        sim.probe("app_loops", app.loops)
    sim.probe("frames", len(frames))
    sim.note(len(frames) * 31 + sum(a.loops for a in apps))

    # it stays shut down
    t0 = sim.now
    server.stop_all()
    check(sim.now - t0 < 5.0, "slow-operation", "second stop")
    _ = STARTING


def repair_and_check(sim, plan, server, st, on, ports, peers, apps, get, post,
                     ws_command, command, timed, readers, reader, names, chan,
                     Reader, cmds, Op, State, settle, udp_socks):
    """Undo what operations did: everything is served again."""
    from .. import net

    def all_up():
        for name in list(server.daemons.daemons):
            daemon = server.daemons.get(name)
            if daemon.state == State.IDLE:
                server.daemons.perform(name, Op.START)
            elif daemon.state == State.PAUSED:
                server.daemons.perform(name, Op.UNPAUSE)
        return all(server.daemons.get(n).state == State.RUNNING
                   for n in list(server.daemons.daemons))

    settle()
    c.wait_until(all_up, limit=120.0, step_s=0.05, what="all daemons running")
    timed("scale", server.scale_speed, 1.0)
    c.wait_until(lambda: cmds.execute({"command": "help"})[0], limit=600.0,
                 what="command queue servicing")
    c.wait_until(all_up, limit=120.0, step_s=0.05, what="all daemons running")
    touched = set(st["touched"])
    st["touched"] = set()

    # new clients are served
    fresh = []
    for kind in ("tcp", "wst"):
        if on[kind]:
            peer = Reader({"kind": kind, "delay": 0, "leave": None, "n": 0})
            fresh.append(peer)
            c.wait_until(lambda kind=kind: ports[kind] in net.NET.listeners,
                         what=f"{kind} listens")
            readers.go(reader, peer, name=f"fresh-{kind}")
    peers.extend(fresh)
    steady = list(fresh)
    for peer in peers:
        name = {"tcp": "tcp_telemetry", "wst": "websocket_telemetry"}[
            peer.kind]
        if (peer.spec["leave"] is None and name not in touched
                and not peer.refused):
            steady.append(peer)
    before = {id(p): len(p.frames()) for p in steady}
    loops = {a.name: a.loops for a in apps}

    def progress():
        timed("set", server.daemons.get("telemetry").set_now, chan,
              int(sim.now * 1000) & 0xFFFF)
        return all(len(p.frames()) >= before[id(p)] + 2 for p in steady)

    end = sim.now + 60.0
    while not progress():
        c.reraise()
        check(sim.now < end, "no-progress", "clients without new frames: "
              f"{[(p.kind, len(p.frames()), before[id(p)], p.done) for p in steady]}"
              f"\n{sim.stacks()}")
        c.sleep(0.05)
    c.wait_until(lambda: all(a.loops > loops[a.name] for a in apps
                             if a.name in loops and a.registered),
                 what=f"applications: {[(a.name, a.loops) for a in apps]}")
    for via, name in (("direct", None), ("http", "http"), ("ws", "wsc")):
        if name is None or on[name]:
            res = command(via, "daemon", {"operation": "states"})
            check(res is None or res[0] and set(json.loads(res[1])) >= names,
                  "wrong-reply", str(res))
    if on["http"]:
        res = get("/")
        check(res is not None and res[0] == 200, "bad-response", str(res))
    sim.probe("served")
