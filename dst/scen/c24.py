"""C24: programs that run a daemon or a server end cleanly."""

import queue as _queue
import socket
import sys
import threading

from .. import core
from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = []
RUNS = {"quick": 1200, "thorough": 12000}
REAL = ("the command-line program (entry.main, app.entry), DaemonBase.serve "
        "and booted with every kind of daemon, TelemetryServer.serve, booted "
        "and await_shutdown with all of its daemons and services, http.server, "
        "socketserver, websockets and asyncio (sockets, threads, clock and the "
        "delivery of the interrupt are simulated)")

KINDS = ("periodic", "queue", "loop", "websocket", "http", "tcp", "time",
         "server", "server", "server")


def gen(rng, tier):
    cfg = sched_cfg(rng, max_steps=16_000_000)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    cfg["hot_max"] = min(cfg.get("hot_max", 0), 0.05)
    if cfg["strategy"] == "pct":
        # periodic workers can take all of the time there is: be fair
        cfg.update(strategy="rw", p=0.0)
    kind = rng.choice(("main", "main", "daemon", "daemon", "daemon"))
    plan = {
        "cfg": cfg,
        "kind": kind,
        "net": {"seg": "none", "lat_max": 1e-3},
        "t": rng.choice((0, 1e-4, 1e-3, 0.02, 0.2, 1.0)),
        "fail": None,
    }
    if kind == "main":
        plan.update(
            end=rng.choice(("uptime", "uptime", "http", "interrupt",
                            "interrupt", "both", "args", "port")),
            uptime=rng.choice((0.001, 0.1, 0.5, 2)),
            tick=rng.choice((None, 0.01, 0.05)),
            telem=rng.choice((None, 0.05, 0.5)),
            scale=rng.choice((None, None, 0.5, 2.0, 0.0)),
            ports=[rng.random() < 0.6 for _ in range(3)],
            basis=rng.random() < 0.7)
        if plan["end"] in ("uptime", "http", "interrupt"):
            plan["fail"] = rng.choice((None, None, *range(10)))
    else:
        plan.update(
            daemon=rng.choice(KINDS),
            helper=rng.choice(("serve", "serve", "serve", "booted",
                               "booted_nr", "default")),
            end=rng.choice(("return", "return", "raise", "interrupt")),
            args=rng.choice(([], [], ["a"], [3, "b"])),
            kwargs=rng.choice(({}, {}, {"k": 1})),
            value=rng.choice((0, 0, 1, 5, -3)),
            rounds=rng.choice((1, 1, 2)))
        if rng.random() < 0.2:
            plan["fail"] = rng.choice((0, 0, 1, 2, 5, 8))
        if plan["daemon"] == "server":
            plan["rounds"] = 1
        if plan["helper"] == "default":
            plan["end"] = "interrupt"
    return plan


def allow_swallowed(_, __, exc):
    return isinstance(exc, ConnectionError)


class Stop(Exception):
    """Raised by the main part."""


def run(sim, plan):
    from .. import net

    programs = []

    def attempt(fn, *args, **kwargs):
        """Run a program in its (main) thread: (result, error)."""
        out = {"result": None, "error": None}

        def body():
            try:
                out["result"] = fn(*args, **kwargs)
            except (Stop, KeyboardInterrupt, Exception) as exc:
                if isinstance(exc, c.Violation):
                    raise
                out["error"] = exc
            out["done"] = True

        crew = c.Crew()
        programs.append(crew.go(body, name="program"))
        return crew, out

    def simthread():
        """The simulator's side of the program's thread."""
        ident = programs[-1].ident
        for t in reversed(sim.threads):
            if t.ident == ident:
                return t
        return None

    def waits_in(name):
        """Does the program wait in this function (and not beyond it)?"""
        t = simthread()
        if t is None or t.state != core.BLOCKED or t.stalled:
            return False
        frame = sys._current_frames().get(t.ident)
        while frame is not None:
            found = frame.f_code.co_name
            if found == name:
                return True
            if found in ("__enter__", "__exit__", "_acquire_restore",
                         "stop_all"):
                return False
            frame = frame.f_back
        return False

    def interrupt(name, out):
        """Interrupt the program while it waits in this function."""
        c.wait_until(lambda: out.get("done") or waits_in(name), limit=100.0,
                     step_s=1e-3, what=f"the program waiting in {name}")
        if plan["t"]:
            c.sleep(plan["t"])
        while not out.get("done"):
            if waits_in(name):
                sim.fault("interrupt")
                sim.interrupt(simthread(), KeyboardInterrupt())
                return
            c.sleep(1e-4)

    starts = [0]

    def thread_fault(thread):
        """The program can't start its n-th thread."""
        if not programs or threading.current_thread() is not programs[-1]:
            return False
        starts[0] += 1
        if plan["fail"] is not None and starts[0] == plan["fail"] + 1:
            sim.fault("thread_start_fails")
            return True
        return False

    sim.thread_fault = thread_fault
    ours = set()

    def workers():
        return [t.name for t in threading.enumerate()
                if t.is_alive() and t not in programs and t not in ours
                and t is not threading.main_thread()
                and "ThreadPoolExecutor" not in t.name
                and "process_request" not in t.name
                and not t.name.startswith("asyncio_")]

    def nothing_left(t0, listeners=()):
        """All that was started ended, all that listened is closed."""
        left = workers()
        check(not left, "worker-left",
              f"{left} still run when the program ended\n{sim.stacks()}")
        c.wait_until(
            lambda: set(net.NET.listeners) <= set(listeners), limit=5.0,
            what=f"sockets closed: {sorted(net.NET.listeners)}")
        check(sim.now - t0 < 60.0, "slow-end", f"{sim.now - t0:.2f} s")

    env = {"attempt": attempt, "interrupt": interrupt, "waits_in": waits_in,
           "nothing_left": nothing_left, "ours": ours, "starts": starts}
    (run_main if plan["kind"] == "main" else run_daemon)(sim, plan, env)


# ------------------------------------------------------------- the program
def run_main(sim, plan, env):
    from vtelem import PKG_NAME
    from vtelem.entry import main

    from .. import net

    port = net.NET.port()
    argv = [PKG_NAME, "-p", str(port)]
    for name, wanted in zip(("ws-cmd", "ws-tlm", "tcp-tlm"), plan["ports"]):
        if wanted:
            argv += [f"--{name}-port", str(net.NET.port())]
    for name, value in (("-t", plan["tick"]), ("--telem-rate", plan["telem"]),
                        ("--time-scale", plan["scale"]),
                        ("-a", 0.5 if plan["basis"] else None)):
        if value is not None:
            argv += [name, str(value)]
    end = plan["end"]
    if end == "uptime":
        argv += ["-u", str(plan["uptime"])]
    elif end == "args":
        argv += ["--nosuch"]
    blocker = None
    if end == "port":
        blocker = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        blocker.bind(("0.0.0.0", port))
        blocker.listen(1)

    err, sys.stderr = sys.stderr, open("/dev/null", "w", encoding="utf-8")
    crew, out = env["attempt"](main, argv)
    t0 = sim.now

    def exchange(data):
        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(("127.0.0.1", port))
            sock.settimeout(30.0)
            sock.sendall(data)
            got = b""
            while True:
                part = sock.recv(65536)
                if not part:
                    return got
                got += part
        except (ConnectionError, TimeoutError):
            return None
        finally:
            sock.close()

    def ask():
        """Shut the program down over http."""
        while not out.get("done"):
            got = exchange(b"GET /id HTTP/1.0\r\n\r\n")
            if got and got.startswith(b"HTTP/1.0 200"):
                break
            c.sleep(0.01)
        if out.get("done"):
            return
        c.wait_until(
            lambda: out.get("done") or env["waits_in"]("await_shutdown"),
            limit=100.0, step_s=1e-3, what="the program waiting")
        if plan["t"]:
            c.sleep(plan["t"])
        body = b"app_id=" + got.partition(b"\r\n\r\n")[2]
        exchange(b"POST /shutdown HTTP/1.0\r\nContent-Length: %d\r\n"
                 b"Content-Type: application/x-www-form-urlencoded\r\n\r\n%s"
                 % (len(body), body))
        st["asked"] = True

    st = {}
    aux = c.Crew()
    if end in ("http", "both"):
        env["ours"].add(aux.go(ask, name="asks"))
    if end in ("interrupt", "both"):
        env["ours"].add(aux.go(env["interrupt"], "await_shutdown", out,
                               name="interrupts"))
    crew.join(200.0, "the program")
    aux.join(100.0, "requests")
    sys.stderr = err
    took = sim.now - t0
    failed = sim.faults.get("thread_start_fails")
    # a service that doesn't stop in time makes it fail
    slow = isinstance(out["error"], AssertionError) and took >= 1.99
    if end == "args":
        check(out["result"] not in (0, None), "wrong-result", str(out))
    elif end == "port":
        check(isinstance(out["error"], OSError), "wrong-result", str(out))
    elif failed:
        check(isinstance(out["error"], Exception), "wrong-result",
              f"without all threads: {out}")
    elif not slow:
        check(out["error"] is None and out["result"] == 0, "wrong-result",
              f"{end}: {out['result']!r} {out['error']!r}")
    if end == "uptime" and not failed:
        check(took >= plan["uptime"], "early-end", f"{took:.3f} s")
    if slow and not failed:
        sim.probe("slow_stop")
        c.wait_until(lambda: True)
        return
    listeners = ()
    if end == "port":
        # (what was bound before the failure is closed by the interpreter)
        blocker.close()
        listeners = set(net.NET.listeners)
    env["nothing_left"](t0, listeners)
    sim.probe("main_" + end)
    sim.note(int(took * 1000) & 0xFFFF)


# ----------------------------------------------------- daemons and servers
def make(plan):
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.event_loop import EventLoopDaemon
    from vtelem.daemon.http import HttpDaemon
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.daemon.synchronous import Daemon
    from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
    from vtelem.daemon.websocket import WebsocketDaemon
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment
    from vtelem.telemetry.server import TelemetryServer

    from .. import net

    kind = plan["daemon"]
    host = Host("127.0.0.1", net.NET.port())
    env = TelemetryEnvironment(2 ** 10, metrics_rate=1.0)
    if kind == "periodic":
        return Daemon("d", lambda *_, **__: None, 0.02, env=env)
    if kind == "queue":
        return QueueDaemon("d", _queue.Queue(), lambda _: None, env)
    if kind == "loop":
        return EventLoopDaemon("d", env)
    if kind == "websocket":
        async def consumer(*_):
            return None
        return WebsocketDaemon("d", consumer, host, env)
    if kind == "http":
        return HttpDaemon("d", host, env=env)
    if kind == "tcp":
        return TcpTelemetryDaemon("d", default_writer(env=env)[0], env, host)
    if kind == "time":
        return TimeKeeper("d", 0.05)
    return TelemetryServer(0.05, 0.1, 0.5, 0.5)


def run_daemon(sim, plan, env):
    from vtelem.enums.daemon import DaemonState as State

    from .. import net

    daemon = make(plan)
    args, kwargs = tuple(plan["args"]), dict(plan["kwargs"])
    helper, end, kind = plan["helper"], plan["end"], plan["daemon"]
    calls = []

    def waiting():
        """The main part, until it's interrupted."""
        while True:
            c.sleep(5.0)

    def main_part():
        c.wait_until(lambda: daemon.state == State.RUNNING, limit=20.0,
                     what="running")
        if kind == "server":
            c.wait_until(lambda: all(
                s == State.RUNNING for s in daemon.daemons.states(
                    False).values()), limit=20.0, what="running")
        if end == "interrupt":
            waiting()
        if plan["t"]:
            c.sleep(plan["t"])
        if end == "raise":
            raise error

    def main_thread(*got, **gotkw):
        calls.append((got, gotkw))
        check(got == (daemon, *args) and gotkw == kwargs, "wrong-arguments",
              f"{got} {gotkw}")
        main_part()
        return plan["value"]

    def booted(**more):
        with daemon.booted(*args, **more, **kwargs):
            calls.append(None)
            main_part()
        return plan["value"]

    for k in range(plan["rounds"]):
        error = Stop("main part")
        del calls[:]
        before = sim.faults.get("thread_start_fails", 0)
        if helper == "serve":
            crew, out = env["attempt"](
                daemon.serve, *args, main_thread=main_thread, **kwargs)
        elif helper == "default":
            crew, out = env["attempt"](daemon.serve, *args, **kwargs)
        elif helper == "booted" or kind == "server":
            crew, out = env["attempt"](booted)
        else:
            crew, out = env["attempt"](booted, require_stop=False)
        t0 = sim.now
        aux = c.Crew()
        if end == "interrupt":
            env["ours"].add(aux.go(
                env["interrupt"],
                "dummy_thread" if helper == "default" else "waiting", out,
                name="interrupts"))
        crew.join(200.0, "the program")
        aux.join(10.0)
        failed = sim.faults.get("thread_start_fails", 0) > before
        err = out["error"]
        slow = isinstance(err, AssertionError) and sim.now - t0 >= 1.99
        if slow and not failed:
            sim.probe("slow_stop")
            return
        if failed:
            check(isinstance(err, Exception) and not isinstance(err, Stop),
                  "wrong-result", f"without a worker: {out}")
            check(not calls, "wrong-result", "the main part ran")
        elif end == "raise":
            check(err is error, "wrong-result", f"{out['result']} {err!r}")
        elif end == "interrupt" and helper != "default":
            check(isinstance(err, KeyboardInterrupt), "wrong-result",
                  f"{out['result']} {err!r}")
        else:
            want = 0 if helper == "default" else plan["value"]
            check(err is None and out["result"] == want, "wrong-result",
                  f"{out['result']} {err!r}")
        check(failed or helper == "default" or len(calls) == 1,
              "wrong-calls", str(calls))
        check(daemon.state == State.IDLE, "not-idle", str(daemon.state))
        closes = kind == "server" or kind == "http" and helper in (
            "serve", "default")
        keeps = kind in ("http", "tcp") and not closes
        env["nothing_left"](t0, set(net.NET.listeners) if keeps else ())
        if failed and kind != "server":
            plan["fail"] = None
        if closes:
            break
        # (a websocket's loop can't be used again once it ended)
    if kind in ("http", "tcp"):
        check(daemon.close() == keeps, "wrong-close", str(closes))
        check(not net.NET.listeners, "still-listening",
              str(sorted(net.NET.listeners)))
    sim.probe(f"{helper}_{end}")
