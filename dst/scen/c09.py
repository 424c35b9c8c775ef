"""C09: the TCP client over any segmentation, breakage and restarts."""

import socket
import struct
from queue import Queue

from ..child import sched_cfg
from . import common as c
from .common import check
from .frames import APP, Maker, gen_spec, key, make_env, match

SHRINK = ["sessions", "sessions.0.frames", "sessions.1.frames"]
RUNS = {"quick": 1500, "thorough": 40000}
REAL = ("TcpClient, SocketClient, TelemetryClient, FrameProcessor, "
        "decode_frame, DaemonBase")
ENDS = ("drain", "drain", "stop", "fin", "finmid", "rst", "rstmid", "race",
        "none", "refuse")


def gen(rng, tier):
    sessions = []
    crc = rng.random() < 0.5
    for k in range(rng.choice((1, 1, 2, 3))):
        bad = rng.choice((0, 0, 0.2))
        end = rng.choice(ENDS)
        if k == 0 and end == "refuse":
            end = "drain"
        sessions.append({
            "frames": [gen_spec(rng, bad, rng.choice((3, 20, 60)))
                       for _ in range(rng.randint(0, 12))],
            "chunks": rng.choice(("one", "frame", "bytes", "rand", "head")),
            "pause": rng.choice((0, 0, 1e-4, 0.01, 0.3)),
            "end": end,
            "cut": rng.randrange(10**6),
            "when": rng.choice((0, 0, 1e-3, 0.05, 0.2)),
            "mtu": rng.random() < 0.3,
            "jam": rng.random() < 0.15,
        })
    _ = crc
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    return {"cfg": cfg, "sessions": sessions,
            "bounded": rng.choice((0, 0, 0, 2)),
            "net": {"seg": rng.choice(("none", "random", "tiny")),
                    "lat_max": rng.choice((1e-4, 1e-3, 0.2)),
                    "rcvbuf": rng.choice((65536, 65536, 64, 300))}}


def chunks(data, bounds, style, salt):
    if style == "one":
        return [data]
    if style == "frame":
        cuts = bounds
    elif style == "head":
        # split inside the size headers
        cuts = sorted({b + 1 + (salt + b) % 3 for b in [0] + bounds[:-1]})
    elif style == "bytes":
        cuts = list(range(1, len(data), max(1, len(data) // 60)))
    else:
        cuts = []
        pos = salt % 7 + 1
        while pos < len(data):
            cuts.append(pos)
            salt = salt * 1103515245 + 12345 & 0x7FFFFFFF
            pos += 1 + salt % 90
    out, last = [], 0
    for cut in cuts + [len(data)]:
        cut = min(cut, len(data))
        if cut > last:
            out.append(data[last:cut])
            last = cut
    return out


def run(sim, plan):
    from vtelem.client.tcp import TcpClient
    from vtelem.daemon import DaemonState
    from vtelem.mtu import Host

    env = make_env(metrics=1.0)
    maker = Maker(env.channel_registry)
    lst = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    lst.bind(("127.0.0.1", 0))
    lst.listen()
    port = lst.getsockname()[1]
    queue = Queue()
    client = TcpClient(Host("127.0.0.1", port), queue, env.channel_registry,
                       env.app_id, env, mtu=4096)
    crew = c.Crew()
    last_sock = None
    for n, sess in enumerate(plan["sessions"]):
        specs = sess["frames"]
        built = [maker.build(s) for s in specs]
        if sess["mtu"]:
            # large frames first, then the limit is lowered
            built = [b for b in built if b[1] is not None]
            built.sort(key=lambda b: -len(b[0]))
        data = b"".join(struct.pack(">I", len(raw)) + raw for raw, _ in built)
        bounds = []
        pos = 0
        for raw, _ in built:
            pos += 4 + len(raw)
            bounds.append(pos)
        cut = None
        if sess["end"].endswith("mid") and data:
            cut = sess["cut"] % (len(data) + 1)
            data = data[:cut]
            sim.fault("stream_cut")
        client.update_mtu(4096)
        state = {"sent": False, "conn": None, "go": False}

        def peer(sess=sess, data=data, state=state, bounds=bounds):
            conn, _ = lst.accept()
            state["conn"] = conn
            if sess["jam"]:
                conn.sendall(b"")
            try:
                for part in chunks(data, bounds, sess["chunks"], sess["cut"]):
                    conn.sendall(part)
                    if sess["pause"]:
                        c.sleep(sess["pause"])
            except OSError:
                pass  # the client stopped reading
            state["sent"] = True
            end = sess["end"]
            if end in ("fin", "finmid"):
                sim.fault("peer_close")
                conn.close()
            elif end in ("rst", "rstmid"):
                sim.fault("peer_reset")
                c.sleep(sess["when"])
                conn._abort()
            elif end == "race":
                c.wait_until(lambda: state["go"], step_s=1e-3)
                if sess["cut"] & 1:
                    conn._abort()
                else:
                    conn.close()

        if sess["end"] == "refuse":
            # nobody listens: the run ends on its own
            lst.close()
            sim.fault("connect_refused")
            check(client.start(), "start-failed", f"session {n}")
            c.wait_until(lambda: client.state == DaemonState.IDLE,
                         what="end of a refused client")
            check(client.stop() is False, "bad-stop", "stopped when idle")
            got = drain(queue)
            check(got == [None], "wrong-marker",
                  f"refused session {n}: {[key(f) for f in got]}")
            lst = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            lst.bind(("127.0.0.1", port))
            lst.listen()
            continue
        thread = crew.go(peer, name=f"peer{n}")
        c.wait_until(lambda: client.state == DaemonState.IDLE,
                     what="idle client")
        check(client.start(), "start-failed", f"session {n}")
        worker = client.thread
        c.wait_until(lambda: client.state != DaemonState.STARTING,
                     step_s=1e-3, what="client running")
        want_all = [w for _, w in built if w is not None]
        end = sess["end"]
        if sess["mtu"] and built and end != "stop":
            # once everything but the smallest frames arrived
            sizes = [len(raw) for raw, _ in built]
            half = len(sizes) // 2
            lim = max([sizes[half], 16])
            big = sum(1 for (raw, w) in built[:half] if w is not None)
            if c.poll(lambda: queue.qsize() >= big
                      or client.state == DaemonState.IDLE,
                      limit=30.0, step_s=1e-3):
                client.update_mtu(lim)
                sim.probe("mtu_lowered")
        if end == "drain":
            c.wait_until(lambda: queue.qsize() >= len(want_all),
                         limit=200.0, what=f"{len(want_all)} frames, have "
                         f"{queue.qsize()}")
        elif end in ("stop", "race"):
            c.sleep(sess["when"])
            if end == "race":
                state["go"] = True
        elif end == "none":
            c.wait_until(lambda: state["sent"], limit=200.0,
                         what="peer sent")
        else:
            c.wait_until(lambda: client.state == DaemonState.IDLE,
                         limit=200.0, what="client ending on its own")
        t0 = sim.now
        stopped = client.stop()
        took = sim.now - t0
        check(took < 25.0, "slow-stop", f"stop took {took:.3f} s ({end})")
        # (a worker that the scheduler stalls may outlast the join)
        c.wait_until(lambda: not worker.is_alive(), limit=30.0,
                     what=f"end of the worker after {end}")
        check(client.state == DaemonState.IDLE, "not-stopped",
              f"session {n} ({end}): state {client.state} after stop() "
              f"returned {stopped}\n" + sim.stacks())
        if end in ("drain", "stop", "none"):
            check(stopped is True or took >= 1.99, "stop-failed",
                  f"session {n} ({end}): {took:.3f} s")
        # stopped before it reconnected: nothing was received
        sock = client.socket
        seen = 0 if sock is last_sock else sock.rx_total
        last_sock = sock
        got = drain(queue)
        whole = sum(1 for b in bounds if b <= seen)
        want = [w for _, w in built[:whole] if w is not None]
        what = f"session {n} ({end}, cut {cut}, received {seen} bytes)"
        check(None in got and got.index(None) == len(got) - 1,
              "wrong-marker", f"{what}: delivered {[key(f) for f in got]}")
        got.pop()
        check(len(got) == len(want), "wrong-frames",
              f"{what}: delivered {[key(f) for f in got]}, sent "
              f"{[(w['time'], w['type'], w['size']) for w in want]}")
        for k, (frame, exp) in enumerate(zip(got, want)):
            match(frame, exp, f"{what} frame {k}")
            sim.note(frame.header.timestamp)
        if end in ("fin", "finmid"):
            check(seen == len(data), "unread",
                  f"{what}: read {seen} of {len(data)} bytes")
        if (end in ("rst", "rstmid", "race") and not stopped
                and took < 1.99):
            check(not sock._rx.buf, "unread", f"{what}: {len(sock._rx.buf)} "
                  "bytes arrived before the break but were not read")
        check(sock._closed, "not-closed", f"{what}: socket still open")
        sim.probe("frames", len(got))
        state["go"] = True
        thread.join(60.0)
        if state["conn"] is not None and not state["conn"]._closed:
            state["conn"].close()
    crew.join(what="peer")
    check(queue.empty(), "late-frame", f"{[key(f) for f in drain(queue)]}")
    lst.close()
    _ = APP


def drain(queue):
    out = []
    while not queue.empty():
        out.append(queue.get())
    return out
