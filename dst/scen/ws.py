"""A websocket client of the harness: every byte is under its control."""

import base64
import hashlib
import socket
import struct

from . import common as c
from .common import check

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


class Closed(Exception):
    """The connection ended."""


class WsClient:
    """One websocket connection (blocking, with a simulated time limit)."""

    count = 0

    def __init__(self, port, limit=30.0):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.port = port
        self.limit = limit
        self.buf = bytearray()
        self.close_code = None
        self.salt = 1
        self.sent_close = False

    def connect(self):
        self.sock.connect(("127.0.0.1", self.port))
        self.sock.settimeout(self.limit)
        self.srv = self.sock._tx.srv

    def request(self):
        """The opening handshake's bytes."""
        self.key = base64.b64encode(bytes(range(16)))
        return (
            b"GET / HTTP/1.1\r\nHost: localhost:%d\r\nUpgrade: websocket\r\n"
            b"Connection: Upgrade\r\nSec-WebSocket-Key: %s\r\n"
            b"Sec-WebSocket-Version: 13\r\n\r\n" % (self.port, self.key)
        )

    def handshake(self):
        try:
            self.sock.sendall(self.request())
            while b"\r\n\r\n" not in self.buf:
                self._fill()
        except OSError as exc:
            raise Closed() from exc
        head, rest = bytes(self.buf).split(b"\r\n\r\n", 1)
        self.buf = bytearray(rest)
        status = head.split(b"\r\n")[0].split(b" ")[1]
        if status == b"503":
            raise Closed()
        check(status == b"101", "bad-handshake", repr(head))
        accept = base64.b64encode(hashlib.sha1(self.key + GUID).digest())
        check(accept in head, "bad-handshake", repr(head))

    def _fill(self):
        data = self.sock.recv(65536)
        if not data:
            raise Closed()
        self.buf += data

    def frame(self, opcode, data, fin=True):
        """Bytes of one masked frame."""
        self.salt = self.salt * 1103515245 + 12345 & 0x7FFFFFFF
        mask = struct.pack(">I", self.salt)
        head = bytes([opcode | (0x80 if fin else 0)])
        n = len(data)
        if n < 126:
            head += bytes([0x80 | n])
        elif n < 65536:
            head += bytes([0x80 | 126]) + struct.pack(">H", n)
        else:
            head += bytes([0x80 | 127]) + struct.pack(">Q", n)
        body = bytes(b ^ mask[i & 3] for i, b in enumerate(data))
        return head + mask + body

    def raw(self, data):
        try:
            self.sock.sendall(data)
        except OSError as exc:
            raise Closed() from exc

    def send(self, data, fragments=1, ping=False):
        """Send one message: text for str, binary for bytes."""
        opcode = 1 if isinstance(data, str) else 2
        data = data.encode() if isinstance(data, str) else data
        size = max(1, (len(data) + fragments - 1) // fragments)
        parts = [data[i:i + size] for i in range(0, len(data), size)] or [b""]
        out = b""
        for i, part in enumerate(parts):
            out += self.frame(opcode if i == 0 else 0, part,
                              i == len(parts) - 1)
            if ping and i == 0:
                out += self.frame(9, b"ping")
        self.raw(out)

    def _need(self, n):
        while len(self.buf) < n:
            self._fill()

    def recv(self):
        """The next message as (opcode, payload); raises Closed at the end."""
        try:
            opcode, out = None, b""
            while True:
                self._need(2)
                first, second = self.buf[0], self.buf[1]
                pos, n = 2, second & 127
                check(not second & 128, "bad-ws-frame", "masked by the server")
                if n == 126:
                    self._need(4)
                    n, pos = struct.unpack(">H", self.buf[2:4])[0], 4
                elif n == 127:
                    self._need(10)
                    n, pos = struct.unpack(">Q", self.buf[2:10])[0], 10
                self._need(pos + n)
                data = bytes(self.buf[pos:pos + n])
                del self.buf[:pos + n]
                op, fin = first & 15, first & 128
                if op == 8:
                    self.close_code = (struct.unpack(">H", data[:2])[0]
                                       if len(data) >= 2 else 1005)
                    if not self.sent_close:
                        self.sent_close = True
                        self.sock.sendall(self.frame(8, data[:2]))
                    raise Closed()
                if op == 9:
                    self.sock.sendall(self.frame(10, data))
                    continue
                if op == 10:
                    continue
                if op:
                    check(opcode is None, "bad-ws-frame", "interleaved")
                    opcode = op
                out += data
                if fin:
                    return opcode, out
        except TimeoutError:
            raise
        except OSError as exc:
            raise Closed() from exc

    def close(self, how="close"):
        """End the connection: a closing handshake, FIN or reset."""
        try:
            if how == "close":
                self.sent_close = True
                self.sock.sendall(self.frame(8, b"\x03\xe8"))
                try:
                    while True:
                        self.recv()
                except (Closed, TimeoutError):
                    pass
                self.sock.close()
            elif how == "fin":
                self.sock.close()
            else:
                self.sock._abort()
        except OSError:
            self.sock.close()



