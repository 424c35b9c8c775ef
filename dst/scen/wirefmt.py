"""An independent decoder of the wire format (the oracle's own)."""

import struct
import zlib

FMT = {
    "BOOLEAN": "?", "INT8": "b", "UINT8": "B", "INT16": "h", "UINT16": "H",
    "INT32": "i", "UINT32": "I", "INT64": "q", "UINT64": "Q", "FLOAT": "f",
    "DOUBLE": "d",
}
DATA, EVENT, MESSAGE = 1, 2, 3
HEADER = 15


class Bad(Exception):
    """Not a well-formed frame."""


class Frame:
    """A decoded frame."""

    __slots__ = ("app", "type", "time", "count", "items", "crc", "size",
                 "raw", "fields")


def size_of(name):
    return struct.calcsize(">" + FMT[name])


def f32(val):
    return struct.unpack(">f", struct.pack(">f", val))[0]


def held(name, val):
    """What a held value looks like on the wire."""
    return f32(val) if name == "FLOAT" else val


def decode(data, types, crc):
    """types: channel id -> primitive name."""
    data = bytes(data)
    out = Frame()
    out.raw = data
    out.size = len(data)
    end = len(data)
    out.crc = None
    if crc:
        if end < HEADER + 4:
            raise Bad("too short")
        end -= 4
        out.crc = struct.unpack(">I", data[end:])[0]
        if zlib.crc32(data[:end]) != out.crc:
            raise Bad("crc")
    try:
        out.app, out.type, out.time, out.count = struct.unpack(
            ">HBQI", data[:HEADER])
        pos = HEADER
        out.items = []

        def take(fmt):
            nonlocal pos
            n = struct.calcsize(">" + fmt)
            if pos + n > end:
                raise Bad("short")
            val = struct.unpack(">" + fmt, data[pos:pos + n])[0]
            pos += n
            return val

        if out.type == DATA:
            ids = [take("H") for _ in range(out.count)]
            for i in ids:
                out.items.append((i, take(FMT[types[i]])))
        elif out.type == EVENT:
            ids = [take("H") for _ in range(out.count)]
            for i in ids:
                fmt = FMT[types[i]]
                out.items.append(
                    (i, (take(fmt), take("Q")), (take(fmt), take("Q"))))
        elif out.type == MESSAGE:
            out.fields = tuple(take(f) for f in "BHIHH")
            out.items = data[pos:pos + out.count]
            pos += out.count
            if pos > end:
                raise Bad("short")
        elif out.type == 4:
            out.fields = (take("H"), take("I"))
            n = out.count * size_of(types[out.fields[0]])
            out.items = data[pos:pos + n]
            pos += n
        else:
            raise Bad(f"type {out.type}")
    except (struct.error, KeyError) as exc:
        raise Bad(repr(exc)) from exc
    if pos != end:
        raise Bad(f"{end - pos} bytes left over")
    return out


def encode_data(app, time, items, types, crc=True):
    body = struct.pack(">HBQI", app, DATA, time, len(items))
    for i, _ in items:
        body += struct.pack(">H", i)
    for i, v in items:
        body += struct.pack(">" + FMT[types[i]], v)
    if crc:
        body += struct.pack(">I", zlib.crc32(body))
    return body
