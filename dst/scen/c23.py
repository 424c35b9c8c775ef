"""C23: frames altered in transit are never reported as valid data."""

import struct

from ..child import sched_cfg
from . import wirefmt
from .common import check
from .frames import APP, KINDS, Maker, gen_spec, make_env, match

SHRINK = ["frames"]
RUNS = {"quick": 5000, "thorough": 200000}
REAL = ("Framer, ChannelFrame, MessageFrame, ByteBuffer, decode_frame and all "
        "frame parsers, TelemetryEnvironment.decode_frame, ChannelRegistry")
ALTER = ("flip", "flip", "flips", "byte", "burst", "cut", "cut", "extend",
         "swap", "zero", "drop", "dup", "head", "mix")


def gen(rng, tier):
    frames = []
    for _ in range(rng.randint(1, 8)):
        spec = gen_spec(rng, 0.15, 30)
        spec[3] = rng.random() < 0.85
        frames.append([spec, rng.random() < 0.6, [
            [rng.choice(ALTER), rng.randrange(10**6), rng.randrange(10**6),
             rng.randrange(1, 9)] for _ in range(rng.randint(1, 8))]])
    return {"cfg": sched_cfg(rng, trace="none"), "frames": frames,
            "junk": [[rng.randrange(10**6), rng.randint(0, 90),
                      rng.random() < 0.6] for _ in range(rng.randint(0, 6))]}


def build_real(env, maker, spec):
    """The same frame from the library's own encoder, or None."""
    kind, n, _, crc, _ = spec
    raw, want = maker.build(spec)
    if want is None or kind not in ("data", "event", "message"):
        return raw, want
    framer = env.framer if hasattr(env, "framer") else env
    framer.mtu = len(raw) + spec[2] % 40
    framer.use_crc = crc
    if framer.mtu < len(raw) + 1:
        framer.mtu += 1
    frame = framer.new_frame(kind, want["time"] / 1000.0)
    if kind == "data":
        for ident, val in want["items"]:
            check(frame.add(ident, env.channel_registry.get_item(ident).type,
                            val), "no-room", f"{want}")
    elif kind == "event":
        for ident, prev, curr in want["items"]:
            check(frame.add_event(
                ident, env.channel_registry.get_item(ident).type,
                (prev[0], prev[1] / 1000.0), (curr[0], curr[1] / 1000.0)),
                "no-room", f"{want}")
    else:
        names = ("message_type", "message_number", "message_crc",
                 "fragment_index", "total_fragments")
        frame.initialize(frame.create_fields(dict(zip(names, want["fields"]))),
                         want["items"])
    size = frame.finalize(crc)
    data, used = frame.raw
    check(size == used == len(raw) and bytes(data[:used]) == raw,
          "bad-encoding", f"{spec}: {bytes(data[:used]).hex()} expected "
          f"{raw.hex()}")
    hdr, total = frame.with_size_header()
    check(bytes(hdr[:total]) == struct.pack(">I", used) + raw, "bad-encoding",
          "size header")
    return raw, want


def alter(raw, op):
    kind, a, b, n = op
    mut = bytearray(raw)
    size = len(mut)
    if not size:
        return bytes(mut)
    if kind in ("flip", "flips", "mix"):
        for k in range(1 if kind == "flip" else n):
            bit = (a + k * b) % (size * 8)
            mut[bit >> 3] ^= 1 << (bit & 7)
    elif kind == "byte":
        mut[a % size] = b & 255
    elif kind == "burst":
        for k in range(n):
            mut[(a + k) % size] = (b >> k) & 255
    elif kind == "extend":
        mut += bytes((b + k) & 255 for k in range(n))
    elif kind == "swap":
        i, j = a % size, b % size
        mut[i], mut[j] = mut[j], mut[i]
    elif kind == "zero":
        i = a % size
        mut[i:i + n] = bytes(min(n, size - i))
    elif kind == "drop":
        i = a % size
        del mut[i:i + n]
    elif kind == "dup":
        i = a % size
        mut[i:i] = mut[i:i + n]
    elif kind == "head":
        # the element count or the type, in the frame's header
        if size >= 15:
            struct.pack_into(">I", mut, 11, (a >> 3) % (size + 3))
    if kind in ("cut", "mix"):
        mut = mut[:(a if kind == "cut" else b) % size]
    return bytes(mut)


def view(frame):
    """What a decoded frame says (independent of representation)."""
    head, body = frame.header, frame.body
    out = [head.app_id, int(head.type), head.timestamp, head.size]
    for k in ("channels", "events"):
        for x in body.get(k, ()):
            out.append((x["id"], repr(x.get("value")),
                        repr(x.get("previous")), repr(x.get("current"))))
    for k, v in body.items():
        if k not in ("channels", "events", "channel"):
            out.append((k, bytes(v) if isinstance(v, (bytes, bytearray))
                        else repr(v)))
    return out


def run(sim, plan):
    env = make_env(metrics=1.0)
    maker = Maker(env.channel_registry)
    reg = env.channel_registry
    before = reg.describe()
    later = None
    for n, (spec, real, ops) in enumerate(plan["frames"]):
        raw, want = (build_real(env, maker, spec) if real
                     else maker.build(spec))
        what = f"frame {n} {spec}"
        clean = decode(env, raw, what)
        sim.note(len(raw) * 2 + (clean is not None))
        if want is None:
            check(clean is None, "bad-accepted", f"{what}: {clean}")
        else:
            check(clean is not None, "rejected", what)
            match(clean, want, what)
        if want is not None:
            other = env.decode_frame(raw, len(raw))
            check(other is not None and view(other) == view(clean),
                  "rejected", f"{what}: without an expected application")
            # another application's
            alien = struct.pack(">H", (APP + 1 + n) & 0xFFFF) + raw[2:]
            check(decode(env, alien, what) is None, "alien-accepted", what)
        for op in ops:
            mut = alter(raw, op)
            if mut == raw:
                continue
            sim.fault("altered_" + op[0])
            got = decode(env, mut, f"{what} altered by {op}")
            sim.note(len(mut) * 2 + (got is not None))
            if got is None or not got.body.get("valid", True):
                continue
            if want is None or not spec[3]:
                continue  # nothing protects it
            if view(got) == view(clean):
                sim.probe("altered_but_same_content")
                continue
            check(got.footer.crc is None and unchecked(mut, maker),
                  "altered-accepted",
                  f"{what} altered by {op}: decoded as {view(got)}")
            later = later or (
                f"{what} altered by {op}: nothing was left to be checked")
    for a, size, ours in plan["junk"]:
        data = bytes((a * (k + 3) * 2654435761 >> 9) & 255
                     for k in range(size))
        if ours:
            data = struct.pack(">HB", APP, a % 6) + data
        sim.fault("junk")
        decode(env, data, f"junk {a}/{size}")
        for k in (0, 1, 2, 14, 15, 16):
            decode(env, data[:k], f"junk {a}/{size}")
    check(reg.describe() == before, "registry-changed",
          "decoding changed the channel registry")
    check(later is None, "unchecked-frame", later)
    _ = KINDS


def unchecked(data, maker):
    try:
        wirefmt.decode(data, maker.types, False)
    except wirefmt.Bad:
        return False
    return True


def decode(env, data, what):
    try:
        return env.decode_frame(data, len(data), env.app_id)
    except Exception as exc:  # noqa
        check(False, f"decode-raised:{type(exc).__name__}",
              f"{what}: {exc!r}")
