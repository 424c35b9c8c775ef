"""C18: the TCP telemetry server with healthy, leaving, dying, stalled clients."""

import socket

from ..child import sched_cfg
from . import common as c
from .common import check
from .frames import make_env

SHRINK = ["cycles", "cycles.0.clients", "cycles.0.frames", "cycles.1.clients"]
RUNS = {"quick": 900, "thorough": 30000}
REAL = ("TcpTelemetryDaemon, TcpTelemetryHandler, TcpClient, StreamWriter, "
        "DaemonBase, TelemetryEnvironment's metrics, socketserver (sockets, "
        "selector, threads and clock are simulated)")


def gen(rng, tier):
    def client():
        return {
            "kind": rng.choice(("read", "read", "read", "read", "leave",
                                "leave", "early", "stall", "vtelem",
                                "jam")),
            "delay": rng.choice((0, 0, 0, 1e-5, 1e-4, 1e-3, 0.05, 0.3)),
            "how": rng.choice(("fin", "rst", "fin")),
            "n": rng.randint(0, 6),
            "salt": rng.randrange(1000),
        }

    cycles = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        clients = [client() for _ in range(rng.randint(1, 6))]
        cycles.append({
            "clients": clients,
            "frames": [[rng.choice((0, 1, 5, 200)),
                        rng.choice((0, 0, 0, 1e-4, 1e-3, 0.02, 0.1))]
                       for _ in range(rng.randint(0, 14))],
            # when to stop: None = once everything is settled
            "stop": rng.choice((None, None, None, 0, 1e-5, 1e-4, 1e-3, 0.02,
                                0.1, 0.3)),
            "how": rng.choice(("stop", "stop", "restart")),
            "gap": rng.choice((0, 0, 1e-4, 0.05)),
        })
    cfg = sched_cfg(rng, max_steps=4_000_000)
    tight = rng.random() < 0.15
    if tight:
        # a client that doesn't read blocks the writer, until the stop
        for cyc in cycles:
            if cyc["stop"] is None:
                cyc["stop"] = rng.choice((0.02, 0.1, 0.3))
    return {
        "cfg": cfg,
        "net": {"seg": rng.choice(("none", "none", "random", "tiny")),
                "lat_max": rng.choice((1e-4, 1e-3, 0.02)),
                "rcvbuf": 4096 if tight else 1 << 20},
        "cycles": cycles,
    }


def allow_swallowed(sim, where, exc):
    """Errors of a connection that its client broke."""
    return isinstance(exc, ConnectionError)


class Peer:
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.data = bytearray()
        self.sock = None
        self.srv = None  # the server's socket
        self.done = False  # client closed it, or saw its end
        self.eof = None
        self.leaving = False
        self.connected = False
        self.frames = None


def run(sim, plan):
    from vtelem.daemon import DaemonState
    from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.frame.framer import Framer
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    from .. import net

    env = make_env(metrics=1.0)
    reg = env.channel_registry
    chan = next(i for i in range(40) if reg.get_item(i) is not None
                and reg.get_item(i).type is Primitive.UINT32)
    writer, queue = default_writer("writer", env=env)
    framer = Framer(4096, 0.5)
    port = net.NET.port()
    daemon = TcpTelemetryDaemon("tcp", writer, env, Host("0.0.0.0", port))
    number = [0]
    sent = []  # identifiers, in hand-over order
    wire = {}  # bytes of a frame -> identifier

    def push(extra):
        number[0] += 1
        frame = framer.new_frame("data", float(number[0]))
        for k in range(1 + extra):
            frame.add(chan, Primitive.UINT32, number[0] + k)
        frame.finalize()
        ident = number[0] * 1000
        wire[c.wire(frame)] = ident
        sent.append(ident)
        queue.put(frame)

    assert writer.start()
    check(daemon.start(), "start-failed")
    jammed = []

    for n, cyc in enumerate(plan["cycles"]):
        last = n + 1 == len(plan["cycles"])
        peers = [Peer(s) for s in cyc["clients"]]
        crew = c.Crew()
        st = {"stopping": False, "jam": False}
        worker = daemon.thread

        def recv_all(peer, st=st):
            """Read until the end of the connection."""
            while True:
                data = peer.sock.recv(65536)
                if not data:
                    return
                peer.data += data
                if (peer.kind == "leave" and len(c.split_frames(
                        peer.data, "", True)[0]) >= peer.spec["n"]):
                    peer.leaving = True
                    return
                if peer.kind == "early":
                    peer.leaving = True
                    return

        def client(peer, st=st, n=n):
            spec = peer.spec
            if spec["delay"]:
                c.sleep(spec["delay"])
            if peer.kind == "vtelem":
                return vclient(peer, st, n)
            peer.sock = sock = socket.socket(socket.AF_INET,
                                             socket.SOCK_STREAM)
            sock.connect(("127.0.0.1", port))
            peer.srv = sock._tx.srv
            peer.connected = True
            sock.settimeout(200.0)
            try:
                if peer.kind == "stall":
                    sim.fault("client_stalls")
                    c.sleep(0.5 * spec["n"])
                if peer.kind == "jam":
                    # never reads: its buffers fill up
                    c.wait_until(lambda: st["stopping"], limit=400.0)
                if peer.kind == "early" and spec["n"] < 3:
                    peer.leaving = True
                else:
                    recv_all(peer)
                if peer.leaving:
                    sim.fault("client_" + (
                        "leaves" if spec["how"] == "fin" else "resets"))
                    if spec["how"] == "rst":
                        sock._abort()
                    sock.close()
                else:
                    peer.eof = True
                    sock.close()
            except TimeoutError:
                check(False, "connection-left", f"cycle {n}: a connection "
                      f"did not end within 200 s\n{sim.stacks()}")
            except ConnectionError:
                # the server ends a connection in an orderly manner, unless
                # it was never served
                check(st["stopping"], "dropped", f"cycle {n}: reset")
                peer.eof = True
                sock.close()
            finally:
                peer.done = True
            return None

        def vclient(peer, st, n):
            vcl, out = daemon.client(mtu=4096)
            peer.srv = vcl.socket._tx.srv
            peer.connected = True
            check(vcl.start(), "start-failed", "TCP client")
            got = []
            leave = peer.spec["n"] % 3 == 0
            end = sim.now + 0.2
            while not st["stopping"] and not (leave and sim.now > end):
                c.sleep(0.01)
                while not out.empty():
                    frame = out.get()
                    if frame is None:
                        check(st["stopping"], "dropped",
                              f"cycle {n}: the client's stream ended")
                        break
                    got.append(frame.header.timestamp)
                peer.frames = list(got)
            if st["stopping"]:
                # (it notices the end of the connection by itself)
                if not c.poll(lambda: vcl.state == DaemonState.IDLE, 200.0):
                    check(False, "connection-left",
                          "the TCP client's connection was not ended")
            else:
                peer.leaving = True
                check(vcl.stop(200), "stop-failed", "TCP client")
            while not out.empty():
                frame = out.get()
                if frame is None:
                    check(out.empty(), "bad-frame", "data after the end")
                else:
                    got.append(frame.header.timestamp)
            peer.frames = got
            peer.eof = not peer.leaving
            peer.done = True

        for peer in peers:
            crew.go(client, peer)

        def produce(cyc=cyc):
            for extra, pause in cyc["frames"]:
                push(extra)
                if pause:
                    c.sleep(pause)
            st["produced"] = True

        crew.go(produce)

        def ids(peer, partial=True):
            if peer.kind == "vtelem":
                return list(peer.frames or ())
            got, rest = c.split_frames(peer.data, f"{peer.kind} client",
                                       partial)
            for raw in got:
                check(raw in wire, "bad-frame",
                      f"cycle {n}: {raw[:40]!r} was never sent")
            _ = rest
            return [wire[raw] for raw in got]

        steady = [p for p in peers if p.kind in ("read", "stall") or (
            p.kind == "vtelem" and p.spec["n"] % 3)]
        quiet = None
        if cyc["stop"] is None:
            c.wait_until(lambda: "produced" in st, what="producer")
            # every steady client sees what is produced from now on
            c.wait_until(lambda: all(p.connected for p in peers),
                         what="clients connecting")
            end = sim.now + 60.0
            while not all(ids(p) for p in steady):
                check(sim.now < end, "no-progress", f"cycle {n}: a client "
                      f"gets no frames\n{sim.stacks()}")
                push(0)
                c.sleep(0.1)
            mark = len(sent)
            for k in range(3):
                push(k)
                c.sleep(0.05)
            want = sent[mark:]
            for p in steady:
                c.wait_until(lambda p=p: ids(p)[-3:] == want, limit=100.0,
                             what=f"cycle {n}: frames {want} at a "
                             f"{p.kind} client")
            # clients that left are noticed when frames are sent to them
            gone = [p for p in peers if p not in steady and p.kind != "jam"]
            if all(p.done for p in gone):
                for _ in range(4):
                    push(0)
                    c.sleep(0.2)
                alive = len(steady) + sum(p.kind == "jam" for p in peers)
                c.wait_until(
                    lambda: env.get_metric("tcp.clients") == alive,
                    limit=30.0, what=f"cycle {n}: client count {alive}, is "
                    f"{env.get_metric('tcp.clients')}")
                check(writer.function["metrics_data"]["stream_count"]
                      == alive, "stream-left",
                      f"cycle {n}: {len(writer.streams)} streams")
                sim.probe("counted")
        elif cyc["stop"]:
            c.sleep(cyc["stop"])
        c.wait_until(lambda: daemon.state != DaemonState.STARTING,
                     step_s=1e-4)
        before = [p for p in peers if p.connected]
        accepted = [p for p in before if p.srv.accepted]
        # stop
        st["stopping"] = True
        t0 = sim.now
        if cyc["how"] == "restart" and not last:
            sim.fault("service_restart")
            ok = daemon.restart()
        else:
            ok = daemon.stop()
        took = sim.now - t0
        check(ok or took > 1.99, "stop-failed",
              f"cycle {n}: {took:.2f} s\n" + sim.stacks())
        c.wait_until(lambda: not worker.is_alive(), what="server ended")
        if not ok:
            c.wait_until(lambda: daemon.state == DaemonState.IDLE,
                         what="server idle")
        stays = cyc["how"] == "restart" and ok and not last
        if not stays:
            # every accepted connection ends, with every handler
            left = [p for p in accepted]
            c.wait_until(lambda: all(p.srv._closed for p in left),
                         limit=30.0, what=f"cycle {n}: end of "
                         f"{len(left)} connections")
            c.wait_until(lambda: env.get_metric("tcp.clients") == 0,
                         limit=30.0, what=f"cycle {n}: client count 0, is "
                         f"{env.get_metric('tcp.clients')}")
            check(not writer.streams, "stream-left",
                  f"cycle {n}: {len(writer.streams)} streams after stop")
            if cyc["gap"]:
                c.sleep(cyc["gap"])
            check(daemon.start(), "start-failed", f"cycle {n}")
        # clients the server hadn't accepted (or served) are served now, end
        # everything that's left
        c.wait_until(lambda: daemon.state == DaemonState.RUNNING,
                     what="server running again")
        if not c.poll(lambda: all(p.done for p in peers), 3.0):
            # connections in the listening socket's backlog
            c.wait_until(lambda: "produced" in st, what="producer")
            c.sleep(1.0)
            t0 = sim.now
            check(daemon.stop() or sim.now - t0 > 1.99, "stop-failed",
                  f"cycle {n}: second stop")
            c.wait_until(lambda: daemon.state == DaemonState.IDLE,
                         what="server idle")
            check(daemon.start(), "start-failed", f"cycle {n}")
        crew.join(300.0, f"clients of cycle {n}")

        for p in peers:
            got = ids(p)
            if p.kind != "vtelem" and not p.leaving:
                # whole frames, unless the connection was cut by the stop
                _, rest = c.split_frames(p.data, p.kind, True)
                if rest:
                    sim.probe("cut_frame")
            at = c.find_run(got, sent)
            check(at is not None, "gap",
                  f"cycle {n}: {p.kind} client got {got} of {sent}")
            sim.note(len(got))
        _ = quiet, jammed

    c.wait_until(lambda: daemon.state != DaemonState.STARTING, step_s=1e-3)
    t0 = sim.now
    check(daemon.stop() or sim.now - t0 > 1.99, "stop-failed", "final")
    c.wait_until(lambda: daemon.state == DaemonState.IDLE, what="server idle")
    t0 = sim.now
    check(writer.stop(100), "stop-failed", "writer")
    c.wait_until(lambda: not writer.streams and not daemon.client_sems,
                 limit=30.0, what="streams and semaphores removed, there are "
                 f"{len(writer.streams)} and {len(daemon.client_sems)}")
    check(env.get_metric("writer.stream_count") == 0, "stream-left",
          "stream count")
    check(env.get_metric("tcp.clients") == 0, "stream-left", "client count")
    c.wait_until(lambda: net.NET.open_count == 1, limit=30.0,
                 what="closed connections (besides the listening socket)")
