"""C20: the HTTP API under concurrent, segmented, broken and aborted requests."""

import io
import json
import re
import socket
from urllib.parse import urlencode

from ..child import sched_cfg
from . import common as c
from .common import check
from .frames import make_env

SHRINK = ["clients", "late", "cycles"]
RUNS = {"quick": 900, "thorough": 30000}
REAL = ("HttpDaemon, HttpRequestMapper, MapperAwareRequestHandler, "
        "register_http_handlers, CommandQueueDaemon, TelemetryDaemon's "
        "registries, http.server, socketserver (sockets, selector, threads and "
        "clock are simulated; TLS is a stub that models when a handshake is "
        "performed)")

KINDS = ("id", "types", "registries", "index", "echo", "echo", "uni", "fail",
         "raise", "slow", "big", "cmd", "cmd", "cmdfail", "cmdraise", "help",
         "nocmd", "badcmd", "stopno", "stopbad", "stopnone", "unknown",
         "unknown", "late", "post", "post", "postjson", "multi", "putm",
         "badform", "badlen", "garbage", "stopyes")
ABORT = ("cut", "cutrst", "cutbody", "cutbodyrst", "leave", "idle")
HELLO = b"\x16hello"


def gen(rng, tier):
    def client():
        out = {"delay": rng.choice((0, 0, 0, 1e-4, 1e-3, 0.05, 0.15)),
               "abort": rng.choice(ABORT) if rng.random() < 0.25 else None,
               "salt": rng.randrange(100000),
               "reqs": []}
        for _ in range(rng.randint(1, 4)):
            out["reqs"].append([
                rng.choice(KINDS), rng.randrange(100000),
                rng.random() < 0.2,  # HEAD
                rng.choice((0, 0, 0, 1e-4, 0.02, 0.3)),  # pause half-way
            ])
        return out

    return {
        "cfg": sched_cfg(rng, max_steps=4_000_000),
        "net": {"seg": rng.choice(("none", "none", "random", "tiny")),
                "lat_max": rng.choice((1e-4, 1e-3, 0.02)),
                "rcvbuf": rng.choice((65536, 65536, 2048))},
        "clients": [client() for _ in range(rng.randint(1, 7))],
        "late": [[rng.choice((0, 0, 1e-4, 1e-3, 0.03)), rng.randrange(6)]
                 for _ in range(rng.choice((0, 0, 1, 3, 6)))],
        # stop and start again this long after the beginning
        "cycles": [[rng.choice((0, 1e-4, 1e-3, 0.02, 0.2)),
                    rng.choice((0, 1e-3, 0.3)), rng.random() < 0.5]
                   for _ in range(rng.choice((0, 0, 0, 1, 2)))],
        "tls": rng.random() < 0.25,
        "stop_early": rng.random() < 0.15,
        "dead": rng.random() < 0.1,  # start/stop after close
    }


def allow_swallowed(sim, where, exc):
    """Errors of a connection that its client broke, or of our handler."""
    return isinstance(exc, (ConnectionError, Broken))


class Broken(Exception):
    """Raised by a registered handler."""


# -- a stand-in for a TLS context: only models who waits for the handshake


class TlsRaw(io.RawIOBase):
    def __init__(self, conn, raw):
        self.conn = conn
        self.raw = raw

    def readable(self):
        return True

    def readinto(self, buf):
        self.conn.handshake()
        return self.raw.readinto(buf)

    def close(self):
        if not self.closed:
            self.raw.close()
        super().close()


class TlsConn:
    """A connection whose handshake happens on demand."""

    def __init__(self, sock):
        self.sock = sock
        self.done = False

    def handshake(self):
        if not self.done:
            got = b""
            while len(got) < len(HELLO):
                data = self.sock.recv(len(HELLO) - len(got))
                if not data:
                    raise ConnectionResetError("handshake")
                got += data
            self.done = True

    def do_handshake(self):
        self.handshake()

    def makefile(self, mode="r", buffering=None, **kw):
        if "r" in mode:
            raw = self.sock.makefile(mode, 0, **kw)
            return io.BufferedReader(TlsRaw(self, raw))
        return self.sock.makefile(mode, buffering, **kw)

    def recv(self, size):
        self.handshake()
        return self.sock.recv(size)

    def __getattr__(self, name):
        return getattr(self.sock, name)


class TlsListener:
    def __init__(self, sock, on_connect):
        self.sock = sock
        self.on_connect = on_connect

    def accept(self):
        conn, addr = self.sock.accept()
        conn = TlsConn(conn)
        if self.on_connect:
            conn.handshake()
        return conn, addr

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.sock.close()

    def __getattr__(self, name):
        return getattr(self.sock, name)


class TlsContext:
    def wrap_socket(self, sock, server_side=False,
                    do_handshake_on_connect=True, **_):
        check(server_side, "harness", "not a server's socket")
        if sock.fileno() < 0:
            raise OSError(9, "Bad file descriptor")
        return TlsListener(sock, do_handshake_on_connect)


def run(sim, plan):
    from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon import DaemonState
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.http import HttpDaemon
    from vtelem.daemon.telemetry import TelemetryDaemon
    from vtelem.factories.telemetry_server import register_http_handlers
    from vtelem.mtu import Host

    from .. import net

    telem = TelemetryDaemon("telemetry", 1024, 1.0,
                            TimeKeeper("time", 0.01), 1.0,
                            app_id_basis=0.5)
    cmds = CommandQueueDaemon("cmds", telem)
    port = net.NET.port()
    http = HttpDaemon("http", Host("0.0.0.0", port),
                      MapperAwareRequestHandler, telem)
    executed = []  # tokens seen by handlers and command consumers
    stops = []
    http.stop_all = lambda: stops.append(sim.now)
    if plan["tls"]:
        http.ssl_context = TlsContext()

    register_http_handlers(http, telem, cmds)
    known = {"GET": {"/", "/id", "/types", "/registries", "/command"},
             "POST": {"/shutdown", "/command"}}
    maybe = {k: set(v) for k, v in known.items()}

    def add(method, path, handle, text="nothing", **kwargs):
        maybe.setdefault(method, set()).add("/" + path)
        http.add_handler(method, path, handle, text, **kwargs)
        known.setdefault(method, set()).add("/" + path)

    def seen(data):
        token = data["x"]
        if isinstance(token, list):
            token = token[0]
        executed.append(token)
        return token

    def echo(request, data):
        token = seen(data)
        return True, f"{request.command} {token} " + ",".join(sorted(data))

    def fail(_, data):
        return False, f"failed {seen(data)}\r\nX-Bad: \u20ac <b>\n"

    def broken(_, data):
        raise Broken(seen(data))

    def slow(_, data):
        token = seen(data)
        c.sleep(0.2)
        return True, f"slow {token}"

    def uni(_, data):
        return True, f"\u00b5\u20ac\U0001f600 {seen(data)}"

    def big(_, data):
        return True, "b" * 9000 + seen(data)

    def form(_, data):
        token = data["parts"][0]["body"][0] if data["parts"] else None
        executed.append(token)
        return True, json.dumps([p["headers"]["content-disposition"]["name"]
                                 for p in data["parts"]])

    for method in ("GET", "POST"):
        add(method, "echo", echo, "echoes", data={"X-Extra": "yes"})
    add("GET", "fail", fail)
    add("GET", "raise", broken)
    add("GET", "slow", slow)
    add("GET", "uni", uni, response_type="text/plain")
    add("GET", "big", big)
    add("POST", "form", form)

    def cmd_echo(data):
        executed.append(data["x"])
        return True, f"cmd {data['x']}"

    def cmd_fail(data):
        executed.append(data["x"])
        return False, f"cmd failed {data['x']}"

    def cmd_raise(data):
        executed.append(data["x"])
        raise KeyError(data["x"])

    cmds.register_consumer("echo", cmd_echo, help_msg="echoes")
    cmds.register_consumer("fail", cmd_fail)
    cmds.register_consumer("raise", cmd_raise)

    app_id = str(telem.app_id.get())
    types = telem.type_registry.describe(False)
    types_indented = telem.type_registry.describe(True)
    registries = sorted(telem.registries)
    channels = telem.channel_registry.describe()
    _ = channels

    assert cmds.start()
    check(http.start(), "start-failed")
    st = {"token": 0, "closed": False, "requests": 0}

    def token():
        st["token"] += 1
        return f"t{st['token']}z"

    # ------------------------------------------------------------ clients
    def build(kind, salt, head):
        """Request bytes (head and body) and what its response has to be."""
        tok = token()
        method, body, want, extra = "GET", None, None, []
        once = None
        if kind == "id":
            target, want = "/id", (200, app_id)
        elif kind == "types":
            ind = salt % 2
            target = "/types" + ("?indent=4" if ind else "")
            want = (200, types_indented if ind else types)
        elif kind == "registries":
            target = "/registries" + ("?indent=4" if salt % 2 else "")
            want = (200, "registries")
        elif kind == "index":
            target, want = "/", (200, "index")
        elif kind in ("echo", "uni", "fail", "raise", "slow", "big"):
            target = f"/{kind}?" + urlencode({"x": tok})
            once = tok
            want = {"echo": (200, f"GET {tok} x"),
                    "uni": (200, f"\u00b5\u20ac\U0001f600 {tok}"),
                    "fail": (400, None), "raise": (500, None),
                    "slow": (200, f"slow {tok}"),
                    "big": (200, "b" * 9000 + tok)}[kind]
        elif kind in ("cmd", "cmdfail", "cmdraise"):
            name = {"cmd": "echo", "cmdfail": "fail", "cmdraise": "raise"}
            fields = {"command": name[kind], "x": tok}
            once = tok
            want = {"cmd": (200, f"cmd {tok}"), "cmdfail": (400, None),
                    "cmdraise": (400, None)}[kind]
            target = "/command"
            if salt % 3 == 0 and not head:
                method, body = "POST", urlencode(fields).encode()
            else:
                target += "?" + urlencode(fields)
        elif kind == "help":
            target = "/command?command=help&_=1"
            want = (200, "help")
        elif kind == "nocmd":
            target, want = "/command", (400, None)
        elif kind == "badcmd":
            target = ("/command?command=nosuch", "/command?x=1",
                      "/command?command=Echo&data=3",
                      "/command?command=")[salt % 4]
            want = (400, None)
        elif kind.startswith("stop"):
            method, target = "POST", "/shutdown"
            want = (400, None)
            if kind == "stopyes":
                want = (200, "success")
                body = urlencode({"app_id": app_id}).encode()
            elif kind == "stopno":
                body = urlencode({"app_id": int(app_id) + 1}).encode()
            elif kind == "stopbad":
                body = urlencode({"app_id": ("x", "1.5", "\u20ac", "[]")[
                    salt % 4]}).encode()
            if salt % 5 == 0 and body is not None:
                target, body = target + "?" + body.decode(), None
        elif kind == "unknown":
            method = ("GET", "POST")[salt % 2]
            target = (f"/u{salt}", "/", "/shutdown", "/id/", "/%00",
                      "/echo%20", f"/\xe9{salt}", "/form", "/ID",
                      "//x/y")[salt % 10]
            if target in known.get(method, ()):
                method = "POST" if method == "GET" else "GET"
            want = (404, None)
            body = b"x=1" if method == "POST" else None
        elif kind == "late":
            target = f"/late{salt % 6}"
            want = (None, "late")
        elif kind == "post":
            method, target = "POST", "/echo"
            once = tok
            body = urlencode({"x": tok, "y": "\u20ac"}).encode()
            want = (200, f"POST {tok} x,y")
        elif kind == "postjson":
            method, target = "POST", f"/echo?x={tok}"
            once = tok
            body = json.dumps({"z": "z" * (salt % 3000)}).encode()
            extra = ["Content-Type: " + ("application/json", "text/plain",
                                         "bogus")[salt % 3]]
            want = (200, f"POST {tok} x")
        elif kind == "multi":
            method, target = "POST", "/form"
            count = 1 + salt % 3
            body = "".join(
                "--sep\r\nContent-Disposition: form-data; "
                f"name=\"n{i}\"\r\n\r\n{tok if i == 0 else i}\r\n"
                for i in range(count)).encode() + b"--sep--\r\n"
            extra = ["Content-Type: multipart/form-data; boundary=sep"]
            once = tok
            want = (200, json.dumps([f"n{i}" for i in range(count)]))
        elif kind == "putm":
            method, target = ("PUT", "DELETE", "OPTIONS")[salt % 3], "/echo"
            want = (501, None)
        elif kind == "badform":
            method, target = "POST", "/command?command=nosuch"
            body = (b"\xff\xfe=1", b"--x\r\n\r\n", b"")[salt % 3]
            extra = ["Content-Type: " + (
                "application/x-www-form-urlencoded",
                "multipart/form-data; boundary=x",
                "multipart/form-data")[salt % 3]]
            want = (400, None)
        elif kind == "badlen":
            method, target = "POST", f"/echo?x={tok}"
            extra = ["Content-Length: " + ("abc", "-1", "1e3", "")[salt % 4]]
            want = (400, None)
            body = b""
        else:
            assert kind == "garbage"
            line = (b"\r\n", b"GET\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n",
                    b"GET / JUNK\r\n\r\n", b"GET / HTTP/1.1\r\nNo colon\r\n"
                    b"\x00\xff\r\n\r\n", b"A" * 70000 + b"\r\n\r\n",
                    b"GET / HTTP/1.1 x y\r\n\r\n",
                    b"GET //[ HTTP/1.1\r\n\r\n",
                    b"GET / HTTP/1.1\r\n" + b"a: b\r\n" * 120 + b"\r\n"
                    )[salt % 9]
            return line, b"", ("any", None), None, False
        if head and method == "GET":
            method = "HEAD"
        lines = [f"{method} {target} HTTP/1.{salt % 2}", "Host: x"] + extra
        if body is not None:
            if not any(e.startswith("Content-Len") for e in extra):
                lines.append(f"Content-Length: {len(body)}")
            if not any(e.startswith("Content-Type") for e in extra):
                lines.append("Content-Type: application/"
                             "x-www-form-urlencoded")
        text = "\r\n".join(lines) + "\r\n\r\n"
        return (text.encode("latin-1"), body or b"", want, once,
                method == "HEAD")

    def connect():
        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.connect(("127.0.0.1", port))
        sock.settimeout(60.0)
        if plan["tls"]:
            sock.sendall(HELLO)
        return sock

    def request(kind, salt, head, pause):
        st["requests"] += 1
        top, body, want, once, head = build(kind, salt, head)
        known0 = {k: set(v) for k, v in known.items()}
        stops0 = len(stops)
        data = top + body
        t0 = sim.now
        sock = connect()
        garbage = want[0] == "any"
        try:
            if pause:
                cut = salt % len(data)
                sock.sendall(data[:cut])
                c.sleep(pause)
                sock.sendall(data[cut:])
            else:
                sock.sendall(data)
            got = bytearray()
            while True:
                part = sock.recv(65536)
                if not part:
                    break
                got += part
        except TimeoutError:
            check(False, "no-response", f"{kind} {top[:60]!r}: nothing for "
                  f"60 s\n{sim.stacks()}")
        except ConnectionError as exc:
            check(garbage, "no-response",
                  f"{kind} {top[:60]!r}: {exc!r} after {bytes(got)!r}")
            return
        finally:
            sock.close()
        took = sim.now - t0
        where = f"{kind} {top[:80]!r}"
        if garbage:
            if b"HTTP/1.0 2" in got:
                check(salt % 9 == 4, "accepted", f"{where} got {got[:80]!r}")
            return
        status, heads, text = parse(bytes(got), head, where)
        check(took < 15.0, "slow", f"{where} took {took:.2f} s")
        if (status == 400 and kind.startswith(("cmd", "help"))
                and took >= 1.99 and (head or "not known" in text)):
            sim.probe("result_unknown")
            return
        if once is not None:
            check(executed.count(once) == 1, "not-once",
                  f"{where}: executed {executed.count(once)} times")
        expect, content = want
        if content == "late":
            path = f"/late{salt % 6}"
            sure = path in known0.get("GET", ())
            may = path in maybe.get("GET", ())
            check(status in ((200,) if sure else (200, 404) if may
                             else (404,)), "wrong-status",
                  f"{where}: {status}, {sure=} {may=}")
            if status == 200 and not head:
                check(text == f"late {path}", "wrong-body", repr(text))
            if status == 200:
                check(heads.get("content-type") ==
                      f"text/x{path[5:]}; charset=utf-8" and
                      heads.get("x-late") == path, "wrong-header",
                      f"{where}: {heads}")
            return
        check(status == expect, "wrong-status",
              f"{where}: {status}, not {expect}: {text[:200]!r}")
        if kind.startswith("stop") and kind != "stopyes":
            st.setdefault("denied", []).append(kind)
        if kind == "stopyes":
            st["accepted"] = st.get("accepted", 0) + 1
            check(len(stops) > stops0, "not-once", "no shutdown")
        if kind in ("fail", "cmdfail", "cmdraise") and not head:
            check(once in text, "wrong-body", f"{where}: {text[:300]!r}")
        if kind == "fail":
            check("x-bad" not in heads, "wrong-header", repr(heads))
        if status == 200:
            check(heads.get("content-type", "").startswith(
                "text/plain" if kind == "uni" else "application/json"),
                "wrong-header", f"{where}: {heads}")
            if kind in ("echo", "post", "postjson"):
                check(heads.get("x-extra") == "yes", "wrong-header",
                      f"{where}: {heads}")
        if head or content is None:
            return
        if content in ("registries", "index", "help"):
            try:
                obj = json.loads(text)
            except ValueError:
                check(False, "wrong-body", f"{where}: {text[:300]!r}")
            if content == "registries":
                check(sorted(obj) == registries, "wrong-body",
                      f"{sorted(obj)} not {registries}")
            elif content == "help":
                check(set(obj) == {"help", "echo", "fail", "raise"},
                      "wrong-body", f"{obj}")
            else:
                index(obj, known0, where)
            return
        check(text == content, "wrong-body",
              f"{where}: {text[:200]!r}, not {content[:200]!r}")

    def index(obj, known0, where):
        have = {m: {e["path"] for e in entries} for m, entries in obj.items()}
        for method, paths in have.items():
            check(len(paths) == len(obj[method]), "wrong-index",
                  f"{where}: repeated paths {obj[method]}")
            check(paths <= maybe.get(method, set()), "wrong-index",
                  f"{where}: {method} {paths - maybe.get(method, set())} was"
                  " never registered")
            for entry in obj[method]:
                check(isinstance(entry.get("description"), str)
                      and entry["description"], "wrong-index", str(entry))
        for method, paths in known0.items():
            check(paths <= have.get(method, set()), "wrong-index",
                  f"{where}: {method} {paths - have.get(method, set())} "
                  "is missing")
        check(all(p for p in have.values()), "wrong-index", f"{have}")

    def parse(data, head, where):
        check(b"\r\n\r\n" in data, "no-response", f"{where}: {data!r}")
        top, body = data.split(b"\r\n\r\n", 1)
        lines = top.split(b"\r\n")
        match = re.fullmatch(rb"HTTP/1\.[01] (\d\d\d) [^\r\n]*", lines[0])
        check(match, "bad-response", f"{where}: {lines[0]!r}")
        heads = {}
        for line in lines[1:]:
            check(b":" in line and b"\n" not in line, "bad-response",
                  f"{where}: {line!r}")
            key, val = line.decode("latin-1").split(":", 1)
            key = key.strip().lower()
            check(key not in heads, "bad-response",
                  f"{where}: {key} is repeated")
            heads[key] = val.strip()
        size = heads.get("content-length")
        check(size is not None and size.isdigit(), "bad-response",
              f"{where}: no length in {heads}")
        check(len(body) == (0 if head else int(size)), "bad-length",
              f"{where}: declared {size}, got {len(body)}: {body[-80:]!r}")
        try:
            text = body.decode("utf-8")
        except ValueError:
            check(False, "bad-length", f"{where}: {body[:80]!r}")
        return int(match[1]), heads, text

    aborted = []  # commands that may not be executed

    def abort(kind, salt):
        tok = token()
        body = urlencode({"command": "echo", "pad": "p" * (salt % 50),
                          "x": tok + "end"}).encode()
        sim.fault("client_" + kind)
        if kind == "idle":
            sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            sock.connect(("127.0.0.1", port))
            return sock
        sock = connect()
        top = (f"POST /command HTTP/1.0\r\nContent-Length: {len(body)}\r\n"
               "Content-Type: application/x-www-form-urlencoded\r\n\r\n"
               ).encode()
        if kind in ("cut", "cutrst"):
            data = top[:salt % (len(top) - 2)]
        elif kind in ("cutbody", "cutbodyrst"):
            data = top + body[:salt % len(body)]
        else:
            data = top + body
        if kind != "leave":
            aborted.append(tok)
        try:
            sock.sendall(data)
            if salt % 3:
                c.sleep((1e-4, 0.02)[salt % 2])
            if kind.endswith("rst") or (kind == "leave" and salt % 2):
                sock._abort()
            else:
                sock.close()
        except ConnectionError:
            pass
        return None

    idle = []

    def client(spec):
        if spec["delay"]:
            c.sleep(spec["delay"])
        for n, (kind, salt, head, pause) in enumerate(spec["reqs"]):
            if spec["abort"] and n == spec["salt"] % len(spec["reqs"]):
                sock = abort(spec["abort"], spec["salt"])
                if sock is not None:
                    idle.append(sock)
            try:
                request(kind, salt, head, pause)
            except ConnectionRefusedError:
                check(False, "refused", "not listening")

    def later():
        for pause, number in plan["late"]:
            if pause:
                c.sleep(pause)
            path = f"late{number}"
            if f"/{path}" in known["GET"]:
                continue
            method = "GET" if number < 4 else "PUT"

            def late(_, __, path=path):
                return True, f"late /{path}"

            add(method, path, late, f"late {number}",
                data={"X-Late": "/" + path}, response_type=f"text/x{number}")

    def pending():
        return sim.now

    def cycles():
        for delay, gap, how in plan["cycles"]:
            if delay:
                c.sleep(delay)
            c.wait_until(lambda: http.state == DaemonState.RUNNING,
                         step_s=1e-3)
            t0 = sim.now
            sim.fault("service_restart")
            if how and gap == 0:
                ok = http.restart()
            else:
                ok = http.stop()
                if ok:
                    check(http.state == DaemonState.IDLE, "stop-failed",
                          f"{http.state}")
            took = sim.now - t0
            check(ok or took > 1.99, "stop-failed", f"took {took:.2f} s\n"
                  + sim.stacks())
            c.wait_until(lambda: http.state in (DaemonState.IDLE,
                                                DaemonState.RUNNING),
                         what="http daemon idle")
            if gap:
                c.sleep(gap)
            if http.state == DaemonState.IDLE:
                check(http.start(), "start-failed")

    if plan["stop_early"]:
        c.wait_until(lambda: http.state != DaemonState.STARTING, step_s=1e-5)
        t0 = sim.now
        ok = http.stop()
        check(ok or sim.now - t0 > 1.99, "stop-failed", "right after start")
        c.wait_until(lambda: http.state == DaemonState.IDLE)
        check(http.start(), "start-failed")

    crew = c.Crew()
    for spec in plan["clients"]:
        crew.go(client, spec)
    crew.go(later)
    crew.go(cycles)
    crew.join(200.0, "clients")
    _ = pending

    # nothing may have changed what later requests see
    for kind in ("index", "id", "echo", "cmd"):
        request(kind, 1, False, 0)
    for tok in aborted:
        check(not any(t.startswith(tok) for t in executed if t),
              "truncated-executed", f"{executed}")
    check(len(stops) == st.get("accepted", 0), "not-once",
          f"{len(stops)} shutdowns, {st.get('accepted', 0)} requested")
    for tok in set(executed):
        check(executed.count(tok) == 1, "not-once", f"{tok}: {executed}")

    c.wait_until(lambda: http.state != DaemonState.STARTING, step_s=1e-3)
    t0 = sim.now
    ok = http.stop()
    check(ok or sim.now - t0 > 1.99, "stop-failed",
          f"took {sim.now - t0:.2f} s\n" + sim.stacks())
    c.wait_until(lambda: http.state == DaemonState.IDLE, what="http idle")
    check(http.close(), "close-failed")
    check(not http.close(), "close-failed", "closed twice")
    check(port not in net.NET.listeners, "socket-left", "still listening")
    for sock in idle:
        sock.close()
    if plan["dead"]:
        check(http.start(), "start-failed")
        if plan["stop_early"]:
            http.stop()
        c.wait_until(lambda: http.state == DaemonState.IDLE,
                     what="closed daemon idle")
    check(cmds.stop(100), "stop-failed", "command queue")
    c.wait_until(lambda: net.NET.open_count == 0, what="sockets closed")
