"""C10: the UDP client under loss, duplication, reordering and garbage."""

import socket
import struct
from queue import Queue

from ..child import sched_cfg
from . import common as c, wirefmt
from .common import check
from .c09 import drain
from .frames import APP, Maker, gen_spec, key, make_env, match

SHRINK = ["sessions", "sessions.0", "sessions.1"]
RUNS = {"quick": 2500, "thorough": 60000}
REAL = ("UdpClient, SocketClient, FrameProcessor, decode_frame, DaemonBase, "
        "UdpClientManager, StreamWriter")
RAW = ("zero", "tiny", "over", "short", "text", "size0", "big")


def gen(rng, tier):
    sessions = []
    bad = rng.choice((0, 0.2, 0.6))
    flips = rng.random() < 0.5
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < 0.15 and bad:
                op = ["raw", rng.choice(RAW), rng.randrange(10000)]
            elif r < 0.3 and flips:
                op = ["flip", gen_spec(rng, 0, 6),
                      [rng.randrange(10**6)
                       for _ in range(rng.choice((1, 1, 2, 3, 8)))]]
            elif r < 0.4:
                op = ["batch", [gen_spec(rng, 0, 3)
                                for _ in range(rng.randint(2, 3))]]
            elif r < 0.5 and bad:
                op = ["cut", gen_spec(rng, 0, 6), rng.randrange(10**6)]
            else:
                op = ["frame", gen_spec(rng, bad, 20)]
            ops.append(op + [rng.choice((0, 0, 1e-4, 0.02))])
        sessions.append(ops)
    cfg = sched_cfg(rng)
    cfg["tick"] = min(cfg["tick"], 2e-6)
    return {"cfg": cfg, "sessions": sessions, "flips": flips,
            "senders": rng.choice((1, 1, 2)),
            "any": rng.random() < 0.15,
            "ends": [rng.choice(("drain", "drain", "now", "quiet"))
                     for _ in range(3)],
            "mtu": rng.choice((1400, 1400, 4096)),
            "net": {"udp_loss": rng.choice((0, 0, 0.2)),
                    "udp_dup": rng.choice((0, 0.2)),
                    "udp_reorder": rng.choice((0, 0, 0.3)),
                    "lat_max": rng.choice((1e-3, 0.05))}}


def raw_of(kind, salt, mtu):
    if kind == "zero":
        return b""
    if kind == "tiny":
        return bytes(salt >> k & 255 for k in range(1 + salt % 3))
    if kind == "over":
        return struct.pack(">I", mtu + 1 + salt) + bytes(salt % 60)
    if kind == "short":
        return struct.pack(">I", 100 + salt % 500) + bytes(salt % 99)
    if kind == "text":
        return b"GET / HTTP/1.1\r\n\r\n"[:4 + salt % 15]
    if kind == "size0":
        return struct.pack(">I", 0)
    return struct.pack(">I", mtu + 5) + bytes(mtu + salt % 3000)


def wrap(raw):
    return struct.pack(">I", len(raw)) + raw


def run(sim, plan):
    from vtelem.client.udp import UdpClient
    from vtelem.daemon import DaemonState
    from vtelem.mtu import Host

    env = make_env(metrics=1.0)
    maker = Maker(env.channel_registry)
    maker.any_app = plan["any"]
    mtu = plan["mtu"]
    queue = Queue()
    client = UdpClient(
        Host("127.0.0.1", 0), queue, env.channel_registry,
        None if plan["any"] else env.app_id, env, mtu)
    port = client.socket.getsockname()[1]
    meaning = {}  # datagram bytes -> expected frames

    def learn(data, want):
        old = meaning.get(data)
        if old is not None and [w for w in old if w] != [w for w in want if w]:
            check(False, "harness", "ambiguous datagram")
        meaning[data] = want
        return data

    for n, ops in enumerate(plan["sessions"]):
        grams = []
        for op in ops:
            kind = op[0]
            if kind == "raw":
                data = learn(raw_of(op[1], op[2], mtu), [])
            elif kind == "batch":
                parts = [maker.build(s) for s in op[1]]
                data = b"".join(wrap(raw) for raw, _ in parts)
                if len(data) > mtu:
                    continue
                learn(data, [w for _, w in parts])
            else:
                spec = list(op[1])
                if kind == "flip":
                    spec[3] = True
                raw, want = maker.build(spec)
                if len(raw) > mtu:
                    continue
                data = wrap(raw)
                if kind == "frame":
                    learn(data, [want] if want else [])
                elif kind == "cut":
                    data = data[:op[2] % len(data)]
                    learn(data, [])
                    sim.fault("datagram_cut")
                else:
                    mut = bytearray(data)
                    for bit in op[2]:
                        bit %= len(mut) * 8
                        mut[bit >> 3] ^= 1 << (bit & 7)
                    if bytes(mut) == data or (
                            plan["any"] and mut[:4] == data[:4]
                            and mut[6:] == data[6:]):
                        continue
                    data = bytes(mut)
                    learn(data, [])
                    sim.fault("datagram_corrupt")
            grams.append((data, op[-1]))
        c.wait_until(lambda: client.state == DaemonState.IDLE,
                     what="idle client")
        first = client.socket
        check(client.start(), "start-failed", f"session {n}")
        worker = client.thread
        c.wait_until(lambda: client.state == DaemonState.RUNNING
                     and not client.socket._closed,
                     step_s=1e-3, what="client running")
        sock = client.socket
        check(sock is not first or n == 0, "not-reopened", f"session {n}")
        check(sock.getsockname()[1] == port, "moved", "bound to another port")
        crew = c.Crew()

        def sender(mine):
            tx = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            for data, pause in mine:
                tx.sendto(data, ("127.0.0.1", port))
                sim.fault("datagram")
                if pause:
                    c.sleep(pause)
            c.sleep(1.0)
            tx.close()

        count = plan["senders"]
        for k in range(count):
            crew.go(sender, grams[k::count])
        end = plan["ends"][n]
        if end != "now":
            crew.join(what="senders")
            c.wait_until(lambda: not sock._dgrams
                         and sock.arrived == len(sock.rx_dgrams),
                         limit=100.0, what=f"reading {sock.arrived} datagrams"
                         f", have {len(sock.rx_dgrams)}")
            c.sleep(0.5)
        if end == "drain":
            want = expected(sock.rx_dgrams, meaning)
            c.wait_until(lambda: queue.qsize() >= len(want), limit=100.0,
                         what=f"{len(want)} frames, have {queue.qsize()}")
        t0 = sim.now
        stopped = client.stop()
        # (a worker that the scheduler stalls may outlast the join)
        check(stopped is True or sim.now - t0 >= 1.99, "stop-failed",
              f"session {n} ({end})")
        c.wait_until(lambda: not worker.is_alive(), limit=30.0,
                     what="end of the worker")
        check(client.state == DaemonState.IDLE, "not-stopped",
              f"session {n} ({end}): {client.state}")
        check(sock._closed, "not-closed", "socket still open")
        crew.join(what="senders")
        got = drain(queue)
        what = f"session {n} ({end})"
        check(None in got and got.index(None) == len(got) - 1,
              "wrong-marker", f"{what}: delivered {[key(f) for f in got]}")
        got.pop()
        compare(sim, got, sock.rx_dgrams, meaning, plan, maker, what)
    _ = APP


def expected(grams, meaning):
    out = []
    for data in grams:
        out += [(data, w) for w in meaning.get(bytes(data), [])]
    return out


def compare(sim, got, grams, meaning, plan, maker, what):
    """Every frame belongs to a good datagram, in arrival order."""
    want = expected(grams, meaning)
    got = list(got)
    good = [f for f in got if f.body.get("valid", True)]
    k = 0
    extra = []
    for frame in good:
        if k < len(want) and short(frame) == (
                want[k][1]["app"], want[k][1]["type"], want[k][1]["time"],
                want[k][1]["size"], want[k][1]["crc"]):
            match(frame, want[k][1], f"{what} frame {k}")
            sim.note(frame.header.timestamp)
            k += 1
        else:
            extra.append(frame)
    if k < len(want):
        check(False, "wrong-frames",
              f"{what}: delivered {[short(f) for f in got]}, expected "
              f"{[(w['app'], w['type'], w['time'], w['size'], w['crc']) for _, w in want]}"
              )
    for frame in extra:
        # an altered datagram in which nothing is left to be checked
        check(plan["flips"] and frame.footer.crc is None
              and any(meaning.get(bytes(d)) == [] and unchecked(
                  d, frame, maker) for d in grams), "bad-delivered",
              f"{what}: {short(frame)} {frame.body}")
        check(False, "unchecked-frame",
              f"{what}: {short(frame)} was delivered without its integrity "
              "check from an altered datagram")
    sim.probe("frames", len(good))


def unchecked(data, frame, maker):
    """Is the frame in this datagram well-formed without any check?"""
    data = bytes(data)
    if len(data) < 4:
        return False
    size = struct.unpack(">I", data[:4])[0]
    if size > len(data) - 4:
        return False
    try:
        raw = wirefmt.decode(data[4:4 + size], maker.types, False)
    except wirefmt.Bad:
        return False
    return (raw.app, raw.type, raw.time, raw.size) == short(frame)[:4]


def short(frame):
    return (frame.header.app_id, int(frame.header.type),
            frame.header.timestamp, frame.header.length, frame.footer.crc)
