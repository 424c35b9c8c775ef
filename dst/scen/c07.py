"""C07: fragmented messages are reassembled exactly."""

import shutil
import struct
import tempfile
import zlib

from ..child import sched_cfg
from .common import check

SHRINK = ["deliveries", "messages"]
RUNS = {"quick": 4000, "thorough": 150000}
REAL = ("MessageFramer, MessageFrame, decode_frame, MessageCache and its "
        "files, MessageDispatcher")
HEAD = struct.Struct("!HBQI")
BODY = struct.Struct("!BHIHH")
OVER = HEAD.size + BODY.size


def content(spec):
    kind, size, salt = spec
    if kind == "zero":
        return bytes(size)
    if kind == "text":
        unit = f"line {salt}: caf\u00e9 \u2603 ".encode()
        return (unit * (size // len(unit) + 1))[:size]
    out = b""
    k = 0
    while len(out) < size:
        out += struct.pack("<Q", (salt * 2654435761 + k * 40503) & (2**64 - 1))
        k += 1
    return out[:size]


def gen_messages(rng, many=5, big=1500):
    """Messages to send: [type, content spec, mtu, use_crc]."""
    out = []
    for _ in range(rng.randint(1, many)):
        if out and rng.random() < 0.3:
            # resend something, perhaps with another size limit or type
            msg = list(rng.choice(out))
            if rng.random() < 0.6:
                # (often split differently into as many fragments)
                msg[2] = rng.choice((0, 1, 5, 33, 200,
                                     msg[2] + rng.randint(1, 4),
                                     msg[2] + rng.randint(1, 4)))
            if rng.random() < 0.3:
                msg[0] = rng.randrange(6)
            out.append(msg)
            continue
        size = rng.choice((0, 1, 2, 3, rng.randint(1, 40),
                           rng.randint(1, big)))
        out.append([
            rng.randrange(6),
            [rng.choice(("rand", "rand", "text", "zero")), size,
             rng.randrange(4)],
            rng.choice((0, 1, 2, 7, 33, 200, 1400)),
            rng.random() < 0.7,
        ])
    return out


def room(msg):
    """Bytes of content per frame (bounded number of fragments)."""
    size = msg[1][1]
    # (a few messages have many)
    return max(1 + msg[2], -(-size // (700 if msg[1][2] == 3 else 40)))


def gen(rng, tier):
    msgs = gen_messages(rng)
    frames = []
    for i, msg in enumerate(msgs):
        total = max(1, -(-msg[1][1] // room(msg)))
        frames += [[i, k] for k in range(total)]
    style = rng.choice(("order", "shuffle", "local", "rounds"))
    out = list(frames)
    if style == "shuffle":
        rng.shuffle(out)
    elif style == "local":
        for i in range(len(out) - 1):
            if rng.random() < 0.4:
                j = min(len(out) - 1, i + rng.randint(1, 4))
                out[i], out[j] = out[j], out[i]
    elif style == "rounds":
        out = []
        for _ in range(rng.randint(2, 4)):
            out += [f for f in frames if rng.random() < 0.6]
    drop = rng.choice((0, 0, 0.1, 0.5))
    dup = rng.choice((0, 0.1, 0.5))
    deliveries = []
    for f in out:
        if rng.random() < drop:
            continue
        deliveries.append(f)
        while rng.random() < dup:
            deliveries.insert(rng.randint(0, len(deliveries)), f)
    rng.random()
    if rng.random() < 0.7:
        deliveries += frames if rng.random() < 0.5 else rng.sample(
            frames, len(frames))
    return {"cfg": sched_cfg(rng, trace="none"), "messages": msgs,
            "deliveries": deliveries[:1500],
            "late_cb": rng.random() < 0.3, "warp": rng.choice(
                (0, 0, 0, 65535, 65534))}


def build(sim, plan, env_cls, framer_cls, types):
    """Serialize every message; checks the frames against the wire format."""
    from vtelem.frame.framer import Framer

    framers = {}
    numbers = {}
    out = []
    for mtype, spec, extra, use_crc in plan["messages"]:
        data = content(spec)
        per = room((mtype, spec, extra))
        mtu = OVER + (4 if use_crc else 0) + per
        # one framer, as one sender with a changing size limit
        key = use_crc
        if key not in framers:
            framers[key] = framer_cls(mtu, 0.5, use_crc)
            for t in types:
                framers[key].message_numbers[t] = plan.get("warp", 0)
        framer = framers[key]
        framer.mtu = mtu
        frames, size = framer.serialize_message(data, 1.25, types(mtype))
        num = numbers.setdefault((key, mtype), plan.get("warp", 0))
        numbers[key, mtype] = (num + 1) % 65536
        total = max(1, -(-len(data) // per))
        check(len(frames) == total, "frame-count",
              f"{len(frames)} frames for {len(data)} bytes, {per} per frame")
        wires = []
        for i, frame in enumerate(frames):
            raw, used = frame.raw
            wire = bytes(raw[:used])
            check(len(wire) <= mtu, "too-large", f"{len(wire)} > {mtu}")
            head = HEAD.unpack_from(wire)
            body = BODY.unpack_from(wire, HEAD.size)
            part = data[i * per:(i + 1) * per]
            got = wire[OVER:OVER + len(part)]
            check(head == (32767, 3, 1250, len(part))
                  and body == (mtype, num, zlib.crc32(data), i, total)
                  and got == part
                  and len(wire) == OVER + len(part) + (4 if use_crc else 0),
                  "bad-frame", f"fragment {i}/{total}: {head} {body}")
            if use_crc:
                check(struct.unpack("!I", wire[-4:])[0]
                      == zlib.crc32(wire[:-4]), "bad-frame", "crc")
            wires.append((frame.raw, wire))
        check(size == sum(len(w) for _, w in wires), "bad-size", f"{size}")
        out.append({"type": mtype, "data": data, "crc": zlib.crc32(data),
                    "total": total, "num": num, "wires": wires,
                    "first": data[:per]})
    _ = Framer
    return out


def run(sim, plan):
    from vtelem.message.cache import MessageCache
    from vtelem.message.framer import MessageFramer
    from vtelem.telemetry.environment import TelemetryEnvironment
    from vtelem.types.frame import MessageType

    root = tempfile.mkdtemp(prefix="dst07-")
    sim.cleanup = lambda: shutil.rmtree(root, ignore_errors=True)
    sent = build(sim, plan, TelemetryEnvironment, MessageFramer, MessageType)
    env = TelemetryEnvironment(1500, metrics_rate=None, app_id_basis=0.5)
    calls = []

    def consumer(only):
        def call(mtype, number, data):
            calls.append((only, int(mtype), number, bytes(data)))
        return call

    wanted = (1, 2, 5, 0, 3, 4)
    if plan["late_cb"]:
        cache = MessageCache(root + "/cache")
        for t in wanted:
            cache.add_callback(MessageType(t), consumer(t))
    else:
        cache = MessageCache(root + "/cache", {
            MessageType(t): [consumer(t)] for t in wanted})

    # the same content split differently into as many fragments shares an
    # entry: what was received last at each index counts
    have = {}  # (type, crc, total) -> index -> latest bytes
    full = {}  # (type, crc, total, length of the first) -> set of indices
    nums = {}  # (type, crc) -> number seen last
    done = {}
    for step, (m, k) in enumerate(plan["deliveries"]):
        if m >= len(sent):
            continue
        msg = sent[m]
        (raw, used), wire = msg["wires"][k % msg["total"]]
        k %= msg["total"]
        if step & 1:
            frame = env.decode_frame(raw, used)
        else:
            frame = env.decode_frame(wire, len(wire))
        check(frame is not None, "rejected", f"message {m} fragment {k}")
        cache.ingest(frame)
        key = (msg["type"], msg["crc"])
        latest = have.setdefault(key + (msg["total"],), {})
        latest[k] = bytes(wire[OVER:OVER + HEAD.unpack_from(wire)[3]])
        split = full.setdefault(
            key + (msg["total"], len(msg["first"])), set())
        split.add(k)
        nums[key] = msg["num"]
        must = len(latest) == msg["total"] and b"".join(
            latest[i] for i in range(msg["total"])) == msg["data"]
        may = len(split) == msg["total"]
        new = key not in done and (must or (may and bool(calls)))
        if new:
            done[key] = msg["data"]
            check(calls == [(key[0], key[0], msg["num"], msg["data"])],
                  "wrong-callback", f"message {m} fragment {k}: "
                  f"{[c[:3] + (len(c[3]),) for c in calls]}")
            calls.clear()
        sim.note(m * 4096 + k * 2 + new)
        check(not calls, "extra-callback", f"{[c[:3] for c in calls]}")
        for t in {x["type"] for x in sent}:
            listed = sorted(cache.complete(MessageType(t)))
            want = sorted(c for (u, c) in done if u == t)
            check(listed == want, "wrong-complete",
                  f"after delivery {step} (message {m} fragment {k}): type "
                  f"{t} complete {listed}, expected {want}")
        for x in (msg, sent[step % len(sent)]):
            key = (x["type"], x["crc"])
            got = cache.content(MessageType(key[0]), key[1])
            if key not in done:
                check(got is None, "early-content", f"{key}")
            else:
                check(got is not None and bytes(got[1]) == done[key],
                      "wrong-content", f"{key}")
                check(got[0] == nums[key], "wrong-number",
                      f"{got[0]}, latest is {nums[key]}")
    for key, data in done.items():
        got = cache.content(MessageType(key[0]), key[1])
        check(got is not None and bytes(got[1]) == data, "wrong-content",
              f"{key} at the end")
    sim.fault("messages_incomplete",
              len({(x["type"], x["crc"]) for x in sent}) - len(done))
    sim.fault("deliveries", len(plan["deliveries"]))
