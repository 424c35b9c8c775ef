"""Wire frames with known content, and what decoding them must give."""

import math
import struct
import zlib

from . import wirefmt
from .common import check

APP = 32767  # application identifier for a basis of 0.5
TYPES = ["BOOLEAN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32",
         "INT64", "UINT64", "FLOAT", "DOUBLE"]
KINDS = ("data", "event", "message", "stream")
BAD = ("foreign", "junk", "cut", "badcrc", "badid", "isstream", "badtype",
       "hugecount", "empty", "tail")


def make_env(mtu=1500, crc=True, metrics=None):
    """An environment with one channel per primitive type (plus a stream)."""
    from vtelem.channel import Channel
    from vtelem.enums.primitive import Primitive
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(mtu, metrics_rate=metrics, app_id_basis=0.5,
                               use_crc=crc)
    reg = env.channel_registry
    for _ in range(2):
        for name in TYPES:
            chan = Channel(f"c{reg.count()}", Primitive[name], 1.0)
            reg.add_channel(chan)
    reg.add_channel(Channel("strm", Primitive["UINT16"], 1.0, is_stream=True))
    return env


def type_of(reg, ident):
    return reg.get_item(ident).type.name


class Maker:
    """Builds frames for a registry."""

    def __init__(self, reg):
        self.reg = reg
        self.any_app = False
        self.ids = {}
        self.types = {}
        self.stream = None
        k = 0
        while True:
            chan = reg.get_item(k)
            if chan is None:
                if k > reg.count() + 2:
                    break
                k += 1
                continue
            self.types[k] = chan.type.name
            if chan.is_stream:
                self.stream = k
            k += 1
        self.idlist = [i for i in self.types if i != self.stream]

    def value(self, name, salt):
        salt = (salt * 2654435761 + 12345) & 0xFFFFFFFF
        if name == "BOOLEAN":
            return bool(salt >> 7 & 1)
        if name == "FLOAT":
            return wirefmt.f32(
                (0.0, 1.5, -2.25e10, 3e38, salt / 7.0)[salt % 5])
        if name == "DOUBLE":
            return (0.0, -1e300, 1e-300, salt / 3.0, math.pi)[salt % 5]
        bits = struct.calcsize(">" + wirefmt.FMT[name]) * 8
        lo, hi = ((0, 2**bits - 1) if name.startswith("U")
                  else (-2**(bits - 1), 2**(bits - 1) - 1))
        return (lo, hi, lo + salt % (hi - lo + 1),
                hi - salt % (hi - lo + 1))[salt % 4]

    def build(self, spec):
        """spec: [kind, n, salt, crc, app]; -> (bytes, expected or None)."""
        kind, n, salt, crc, app = spec
        time = 1000 * (salt + 1)
        ids = [self.idlist[(salt + 5 * k) % len(self.idlist)]
               for k in range(n)]
        want = {"app": app, "time": time, "count": n}
        body = b""
        good = kind if kind in KINDS else KINDS[salt % 4]
        if good == "data":
            vals = [self.value(self.types[i], salt + k)
                    for k, i in enumerate(ids)]
            body = b"".join(struct.pack(">H", i) for i in ids)
            for i, v in zip(ids, vals):
                body += struct.pack(">" + wirefmt.FMT[self.types[i]], v)
            ftype = 1
            want["items"] = list(zip(ids, vals))
        elif good == "event":
            evts = []
            for k, i in enumerate(ids):
                t = self.types[i]
                evts.append((i, (self.value(t, salt + k), 125 * (salt + k)),
                             (self.value(t, salt + k + 1),
                              125 * (salt + 3 * k + 7))))
            body = b"".join(struct.pack(">H", i) for i in ids)
            for i, prev, curr in evts:
                fmt = ">" + wirefmt.FMT[self.types[i]]
                for v, t in (prev, curr):
                    body += struct.pack(fmt, v) + struct.pack(">Q", t)
            ftype = 2
            want["items"] = evts
        elif good == "message":
            data = bytes((salt + k * 7) & 255 for k in range(n))
            fields = (salt % 6, salt & 0xFFFF, zlib.crc32(data), 0, 1)
            body = struct.pack(">BHIHH", *fields) + data
            ftype = 3
            want["fields"] = fields
            want["items"] = data
        else:
            data = bytes((salt + k * 3) & 255 for k in range(2 * n))
            body = struct.pack(">HI", self.stream, salt) + data
            ftype = 4
            want["items"] = (self.stream, salt, data)
        want["type"] = ftype
        count = n
        if kind == "badid":
            body = struct.pack(">H", 60000) + body[2:]
            ftype = 4 if good == "stream" else 1 + salt % 2
            count = max(1, n)
            if len(body) < 2:
                body = struct.pack(">H", 60000)
        elif kind == "isstream":
            if salt % 2:
                body, ftype = struct.pack(">HIH", self.stream, 1, 2), 1
            else:
                body, ftype = struct.pack(">HIH", self.idlist[0], 1, 2), 4
            count = 1
        elif kind == "badtype":
            ftype = 5 + salt % 251
        elif kind == "hugecount":
            count = 0xFFFFFFF0 + salt % 16
        raw = struct.pack(">HBQI", app, ftype, time, count) + body
        if kind == "foreign":
            want["app"] = (APP + 1 + salt % 65535) & 0xFFFF
            raw = struct.pack(">H", want["app"]) + raw[2:]
        if kind == "tail":
            # bytes that are neither content nor an integrity check
            crc = False
            raw += b"\x01\x02\x03"[:1 + salt % 3]
        want["crc"] = None
        if crc:
            want["crc"] = zlib.crc32(raw)
            raw += struct.pack(">I", want["crc"])
        if kind == "badcrc":
            raw = raw if crc else raw + bytes(4)
            raw = raw[:-4] + struct.pack(
                ">I", (zlib.crc32(raw[:-4]) ^ (1 << salt % 32)))
        elif kind == "cut":
            raw = raw[:min(len(raw) - 1, 1 + salt % 14)]
        elif kind == "junk":
            raw = bytes((salt * 31 + k * k) & 255 for k in range(1 + salt % 40)
                        )
            if raw[:2] == struct.pack(">H", APP):
                raw = b"\0" + raw
        elif kind == "empty":
            raw = b""
        want["size"] = len(raw)
        if kind in KINDS or (kind == "foreign" and self.any_app):
            return raw, want
        return raw, None


def gen_spec(rng, bad=0.0, big=20):
    n = rng.choice((0, 1, 1, 2, 3, rng.randint(0, big)))
    kind = rng.choice(("data", "data", "event", "message", "stream"))
    if rng.random() < bad:
        kind = rng.choice(BAD)
    return [kind, n, rng.randrange(100000), rng.random() < 0.6, APP]


def same(a, b):
    return type(a) is type(b) and a == b


def match(frame, want, what):
    """A ParsedFrame must be exactly the wanted one."""
    head = frame.header
    check(
        (head.app_id, int(head.type), head.timestamp, head.size)
        == (want["app"], want["type"], want["time"], want["count"]),
        "wrong-frame", f"{what}: header {head}, sent {want}",
    )
    check(head.length == want["size"], "wrong-frame",
          f"{what}: length {head.length}, sent {want['size']}")
    check(frame.footer.crc == want["crc"], "wrong-frame",
          f"{what}: crc {frame.footer.crc}, sent {want['crc']}")
    body = frame.body
    if want["type"] == 1:
        got = [(x["id"], x["value"]) for x in body["channels"]]
        ok = got == want["items"] and all(
            same(x[1], y[1]) for x, y in zip(got, want["items"]))
    elif want["type"] == 2:
        got = [(x["id"], (x["previous"]["value"], x["previous"]["time"]),
                (x["current"]["value"], x["current"]["time"]))
               for x in body["events"]]
        ok = got == want["items"]
    elif want["type"] == 3:
        got = (tuple(int(body[k]) for k in (
            "message_type", "message_number", "message_crc",
            "fragment_index", "total_fragments")),
            bytes(body["fragment_bytes"]))
        ok = got == (want["fields"], want["items"])
    else:
        got = (body["id"], body["index"], bytes(body["data"]))
        ok = got == want["items"]
    check(ok, "wrong-content", f"{what}: got {got}, sent {want['items']}")


def key(frame):
    """A short description of a delivered frame."""
    if frame is None:
        return "END"
    return (frame.header.timestamp, int(frame.header.type),
            frame.header.length)
