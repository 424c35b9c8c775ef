"""A simulated network: TCP and UDP sockets, selectors, socket pairs."""

import errno
import io
import os
import socket as _socket
import selectors as _selectors
from collections import deque

from . import core
from .core import Waiters

SOCK_STREAM = _socket.SOCK_STREAM
SOCK_DGRAM = _socket.SOCK_DGRAM


def _err(num, cls=OSError):
    return cls(num, os.strerror(num))


class Net:
    """All simulated endpoints of one run."""

    def __init__(self, cfg=None):
        cfg = cfg or {}
        self.cfg = cfg
        self.next_fd = 1000
        self.next_port = 40000
        self.listeners = {}  # port -> SimSocket
        self.udp = {}  # port -> SimSocket
        self.fds = {}
        self.mtu = cfg.get("mtu", 65535)
        self.lat_min = cfg.get("lat_min", 1e-5)
        self.lat_max = cfg.get("lat_max", 1e-3)
        self.seg = cfg.get("seg", "random")  # none|random|tiny
        self.rcvbuf = cfg.get("rcvbuf", 65536)
        self.sndbuf = cfg.get("sndbuf", 65536)
        self.udp_loss = cfg.get("udp_loss", 0.0)
        self.udp_dup = cfg.get("udp_dup", 0.0)
        self.udp_reorder = cfg.get("udp_reorder", 0.0)
        self.udp_corrupt = cfg.get("udp_corrupt", 0.0)
        self.udp_trunc = cfg.get("udp_trunc", 0.0)
        self.udp_log = []  # (dst port, payload) as sent
        self.udp_hook = None
        self.connect_fail = cfg.get("connect_fail", 0.0)
        self.open_count = 0

    def fd(self, obj):
        self.next_fd += 1
        self.fds[self.next_fd] = obj
        return self.next_fd

    def port(self):
        self.next_port += 1
        return self.next_port

    def latency(self):
        sim = core.SIM
        span = self.lat_max - self.lat_min
        if span <= 0:
            return self.lat_min
        k = sim.choose("lat", 8)
        return self.lat_min + span * k / 7.0


NET = None


def set_net(net):
    global NET
    NET = net


class Pipe:
    """One direction of a TCP connection."""

    def __init__(self, cap):
        self.buf = bytearray()  # deliverable to the reader
        self.flight = deque()  # segments not yet delivered
        self.inflight = 0
        self.cap = cap
        self.eof = False  # writer closed and everything delivered
        self.closing = False
        self.reset = False
        self.rd_closed = False
        self.readers = Waiters()
        self.writers = Waiters()
        self.selectors = []
        self.last_at = 0.0
        self.total = 0
        self.local = False

    def space(self):
        return self.cap - self.inflight - len(self.buf)

    def changed(self):
        sim = core.SIM
        sim.wake_all(self.readers)
        sim.wake_all(self.writers)
        for w in list(self.selectors):
            sim.wake_all(w)

    def deliver_at(self, when, fn):
        sim = core.SIM
        when = max(when, self.last_at, sim.now)
        self.last_at = when
        sim.call_at(when, fn)

    def push(self, data):
        """Queue data with segmentation and latency."""
        sim, net = core.SIM, NET
        self.total += len(data)
        pos = 0
        while pos < len(data):
            left = len(data) - pos
            n = left
            if net.seg == "random" and left > 1:
                k = sim.choose("seg", 6)
                if k == 1:
                    n = 1
                elif k == 2:
                    n = min(left, 2)
                elif k == 3:
                    n = (left + 1) // 2
                elif k == 4:
                    n = left - 1
                elif k == 5:
                    n = min(left, 7)
                if k:
                    sim.fault("tcp_segment")
            elif net.seg == "tiny":
                n = min(left, 1 + sim.choose("seg", 3))
                sim.fault("tcp_segment")
            chunk = bytes(data[pos:pos + n])
            pos += n
            self.inflight += len(chunk)
            self.flight.append(chunk)
            self.deliver_at(sim.now + net.latency(), self._arrive)

    def _arrive(self):
        if not self.flight:
            return
        chunk = self.flight.popleft()
        self.inflight -= len(chunk)
        if self.rd_closed or self.reset:
            return
        self.buf += chunk
        self.changed()

    def finish(self):
        """Orderly end of stream after the data in flight."""
        if self.closing:
            return
        self.closing = True

        def fin():
            self.eof = True
            self.changed()

        self.deliver_at(core.SIM.now + NET.latency(), fin)

    def abort(self):
        """Connection reset: data in flight is lost."""
        self.reset = True
        self.flight.clear()
        self.inflight = 0
        self.changed()


class SimSocket:
    """socket.socket stand-in."""

    accepted = False  # (a connection that left its listener's backlog)

    def __init__(self, family=_socket.AF_INET, type=SOCK_STREAM, proto=0,
                 fileno=None):
        self.family = _socket.AF_INET if family == -1 else family
        type = SOCK_STREAM if type == -1 else type
        self.type = _socket.SocketKind(type & 0xF)
        self.proto = proto
        self._fd = NET.fd(self)
        self._closed = False
        self._io_refs = 0
        self._close_pending = False
        self._timeout = None
        self._addr = ("0.0.0.0", 0)
        self._peer = None
        self._rx = None  # Pipe
        self._tx = None
        self._listening = False
        self._backlog = deque()
        self._accept_w = Waiters()
        self._sel = []  # selector waiters
        self._dgrams = deque()
        self._dg_w = Waiters()
        self._udp_err = None
        self._opts = {}
        self._rd_shut = False
        self._wr_shut = False
        self._so_error = 0
        self._connecting = False
        self.close_count = 0
        self.watched = False  # ever registered with a selector
        self.rx_total = 0  # bytes the program has received
        self.rx_dgrams = []  # datagrams the program has received
        self.arrived = 0
        NET.open_count += 1

    # ------------------------------------------------------------ basic
    def __enter__(self):
        return self

    def __exit__(self, *_):
        if not self._closed:
            self.close()

    def __repr__(self):
        return f"<SimSocket fd={self._fd} {self._addr} -> {self._peer}>"

    def fileno(self):
        return -1 if self._closed or self._close_pending else self._fd

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def settimeout(self, value):
        self._timeout = None if value is None else float(value)

    def gettimeout(self):
        return self._timeout

    def getblocking(self):
        return self._timeout != 0.0

    def setsockopt(self, level, opt, value, *_):
        self._chk()
        self._opts[(level, int(opt))] = value

    def getsockopt(self, level, opt, buflen=None):
        self._chk()
        if level == _socket.IPPROTO_IP and int(opt) == 14:  # IP_MTU
            if self._peer is None:
                raise _err(errno.ENOTCONN)
            return NET.mtu
        if level == _socket.SOL_SOCKET and opt == _socket.SO_ERROR:
            val, self._so_error = self._so_error, 0
            return val
        return self._opts.get((level, int(opt)), 0)

    def getsockname(self):
        self._chk()
        return self._addr

    def getpeername(self):
        self._chk()
        if self._peer is None or (self._rx is not None and self._rx.reset):
            raise _err(errno.ENOTCONN)
        return self._peer

    def set_inheritable(self, *_):
        pass

    def get_inheritable(self):
        return False

    def detach(self):
        fd = self.fileno()
        self.close()
        return fd

    def _chk(self):
        if self._closed or self._close_pending:
            raise _err(errno.EBADF)

    def _yield(self):
        if core.SIM.active:
            core.SIM.yield_point()

    def _changed(self):
        sim = core.SIM
        for w in list(self._sel):
            sim.wake_all(w)

    # ------------------------------------------------------------ naming
    def bind(self, addr):
        self._yield()
        self._chk()
        host, port = addr[0], addr[1]
        if not 0 <= port <= 65535:
            raise OverflowError("bind(): port must be 0-65535.")
        table = NET.udp if self.type == SOCK_DGRAM else NET.listeners
        if port == 0:
            port = NET.port()
        elif port in table:
            raise _err(errno.EADDRINUSE)
        self._addr = (host if host else "0.0.0.0", port)
        if self.type == SOCK_DGRAM:
            NET.udp[port] = self

    def listen(self, backlog=128):
        self._chk()
        if self._addr[1] == 0:
            self.bind(("0.0.0.0", 0))
        self._listening = True
        NET.listeners[self._addr[1]] = self

    def connect(self, addr):
        self._yield()
        self._chk()
        host, port = addr[0], addr[1]
        if not isinstance(host, str):
            raise TypeError("str, bytes or bytearray expected, not "
                            + type(host).__name__)
        if not isinstance(port, int):
            raise TypeError("an integer is required")
        if not 0 <= port <= 65535:
            raise OverflowError("connect(): port must be 0-65535.")
        if host == "":
            host = "127.0.0.1"
        if not host.replace(".", "").isdigit() and host != "localhost":
            raise _socket.gaierror(-2, "Name or service not known")
        if self.type == SOCK_DGRAM:
            if self._addr[1] == 0:
                self._addr = ("127.0.0.1", NET.port())
                NET.udp.setdefault(self._addr[1], self)
            self._peer = ("127.0.0.1", port)
            return
        if self._peer is not None:
            raise _err(errno.EISCONN)
        lst = NET.listeners.get(port)
        sim = core.SIM
        if NET.connect_fail and sim.chance("connfail", NET.connect_fail):
            sim.fault("connect_refused")
            lst = None
        if lst is None or lst._closed:
            raise _err(errno.ECONNREFUSED, ConnectionRefusedError)
        self._addr = ("127.0.0.1", NET.port())
        self._peer = ("127.0.0.1", port)
        a, b = Pipe(NET.rcvbuf), Pipe(NET.rcvbuf)
        srv = SimSocket(self.family, SOCK_STREAM)
        srv._addr = ("127.0.0.1", port)
        srv._peer = self._addr
        self._tx, self._rx = a, b
        srv._rx, srv._tx = a, b
        a.srv = b.srv = srv
        lst._backlog.append(srv)
        sim.wake_all(lst._accept_w)
        lst._changed()

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as exc:
            return exc.errno
        return 0

    def _wait(self, waiters, ready):
        """Wait until ready() per the socket's timeout; True when ready."""
        sim = core.SIM
        if ready():
            return
        if self._timeout == 0.0:
            raise _err(errno.EAGAIN, BlockingIOError)
        deadline = None if self._timeout is None else sim.now + self._timeout
        while not ready():
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left <= 0:
                    raise _socket.timeout("timed out")
            sim.block(waiters, left)

    def accept(self):
        self._yield()
        self._chk()
        self._wait(self._accept_w, lambda: self._backlog or self._closed)
        self._chk()
        conn = self._backlog.popleft()
        conn.accepted = True
        return conn, conn._peer

    # ------------------------------------------------------------ tcp data
    def recv(self, bufsize, flags=0):
        self._yield()
        self._chk()
        if self.type == SOCK_DGRAM:
            return self._recv_dgram(bufsize)[0]
        rx = self._rx
        if rx is None:
            raise _err(errno.ENOTCONN)
        self._wait(
            rx.readers,
            lambda: rx.buf or rx.eof or rx.reset or self._rd_shut
            or self._closed,
        )
        if self._closed and not rx.buf:
            raise _err(errno.EBADF)
        if rx.buf:
            sim = core.SIM
            n = min(bufsize, len(rx.buf))
            if n > 1 and NET.seg != "none" and not rx.local:
                k = sim.choose("rcv", 4)
                if k == 1:
                    n = 1
                elif k == 2:
                    n = (n + 1) // 2
                if k in (1, 2):
                    sim.fault("tcp_partial_recv")
            data = bytes(rx.buf[:n])
            del rx.buf[:n]
            self.rx_total += n
            rx.changed()
            return data
        if rx.reset and not self._rd_shut:
            if not rx.eof:
                rx.eof = True
                raise _err(errno.ECONNRESET, ConnectionResetError)
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        data = self.recv(n)
        memoryview(buf)[: len(data)] = data
        return len(data)

    def recvfrom(self, bufsize, flags=0):
        self._yield()
        self._chk()
        if self.type == SOCK_DGRAM:
            return self._recv_dgram(bufsize)
        return self.recv(bufsize), self._peer

    def _send_some(self, data):
        tx = self._tx
        if tx is None:
            raise _err(errno.ENOTCONN if self._peer is None else errno.EPIPE,
                       BrokenPipeError if self._peer else OSError)
        if self._wr_shut:
            raise _err(errno.EPIPE, BrokenPipeError)
        if not data:
            return 0

        def ready():
            return (tx.space() > 0 or tx.reset or tx.rd_closed
                    or self._closed)

        self._wait(tx.writers, ready)
        if self._closed:
            raise _err(errno.EBADF)
        if tx.reset:
            if not getattr(tx, "rst_seen", False):
                tx.rst_seen = True
                raise _err(errno.ECONNRESET, ConnectionResetError)
            raise _err(errno.EPIPE, BrokenPipeError)
        if tx.rd_closed:
            # the peer has closed: the first segment provokes a reset
            tx.reset = True
            tx.rst_seen = False
            if self._rx is not None:
                self._rx.changed()
            return len(data)
        n = min(len(data), tx.space())
        if n > 1 and NET.seg != "none" and self._timeout != 0.0:
            if core.SIM.chance("psend", 0.1):
                n = (n + 1) // 2
                core.SIM.fault("tcp_partial_send")
        tx.push(bytes(data[:n]))
        return n

    def send(self, data, flags=0):
        self._yield()
        self._chk()
        if self.type == SOCK_DGRAM:
            return self._send_dgram(bytes(data), None)
        return self._send_some(memoryview(data).cast("B"))

    def sendmsg(self, buffers, *_):
        return self.send(b"".join(bytes(b) for b in buffers))

    def sendall(self, data, flags=0):
        self._yield()
        self._chk()
        if self.type == SOCK_DGRAM:
            self._send_dgram(bytes(data), None)
            return
        view = memoryview(data).cast("B")
        pos = 0
        while pos < len(view):
            pos += self._send_some(view[pos:])

    def sendto(self, data, *args):
        self._yield()
        self._chk()
        return self._send_dgram(bytes(data), args[-1])

    def shutdown(self, how):
        self._yield()
        self._chk()
        if self._rx is None:
            raise _err(errno.ENOTCONN)
        if self._rx.reset or (self._rx.eof and self._tx.closing):
            raise _err(errno.ENOTCONN)
        if how in (_socket.SHUT_RD, _socket.SHUT_RDWR):
            self._rd_shut = True
            self._rx.changed()
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self._wr_shut = True
            self._tx.finish()

    # ------------------------------------------------------------ udp data
    def _send_dgram(self, data, addr):
        sim, net = core.SIM, NET
        if self._udp_err is not None:
            num, self._udp_err = self._udp_err, None
            sim.probe("udp_async_error")
            raise _err(num, {errno.ECONNREFUSED: ConnectionRefusedError}.get(
                num, OSError))
        dst = addr if addr is not None else self._peer
        if dst is None:
            raise _err(errno.EDESTADDRREQ)
        if len(data) > 65507:
            raise _err(errno.EMSGSIZE)
        df = self._opts.get((_socket.IPPROTO_IP, 10)) == 2
        if df and len(data) > net.mtu - 28:
            raise _err(errno.EMSGSIZE)
        port = dst[1]
        hook = net.udp_hook
        if hook is not None:
            num = hook(self, port, data)
            if num:
                raise _err(num)
        net.udp_log.append((self._addr[1], port, bytes(data)))
        if self._addr[1] == 0:
            self._addr = ("127.0.0.1", net.port())
        self_send = port == self._addr[1]
        copies = 1
        if not self_send:
            if net.udp_loss and sim.chance("uloss", net.udp_loss):
                sim.fault("udp_loss")
                return len(data)
            if net.udp_dup and sim.chance("udup", net.udp_dup):
                sim.fault("udp_duplicate")
                copies = 2
        src = self

        for c in range(copies):
            payload = bytes(data)
            delay = net.lat_min
            if not self_send:
                if net.udp_reorder and sim.chance("ureo", net.udp_reorder):
                    delay = net.lat_max * (2 + sim.choose("ureok", 6))
                    sim.fault("udp_delay_reorder")
                if net.udp_corrupt and payload and sim.chance(
                    "ucor", net.udp_corrupt
                ):
                    mut = bytearray(payload)
                    i = sim.choose("ucori", len(mut))
                    mut[i] ^= 1 << sim.choose("ucorb", 8)
                    payload = bytes(mut)
                    sim.fault("udp_corrupt")
                if net.udp_trunc and payload and sim.chance(
                    "utru", net.udp_trunc
                ):
                    payload = payload[: sim.choose("utrui", len(payload))]
                    sim.fault("udp_truncate")
            sim.call_later(
                delay, lambda p=payload: self._arrive(src, port, p)
            )
        return len(data)

    @staticmethod
    def _arrive(src, port, payload):
        dst = NET.udp.get(port)
        if dst is None or dst._closed:
            if src._peer is not None and not src._closed:
                src._udp_err = errno.ECONNREFUSED
            return
        if dst._peer is not None and dst._peer[1] != src._addr[1]:
            return
        dst.arrived += 1
        dst._dgrams.append((payload, src._addr))
        core.SIM.wake_all(dst._dg_w)
        dst._changed()

    def _recv_dgram(self, bufsize):
        self._wait(
            self._dg_w, lambda: self._dgrams or self._closed or self._udp_err
        )
        if self._dgrams:
            data, addr = self._dgrams.popleft()
            self.rx_dgrams.append(data)
            if len(data) > bufsize:
                core.SIM.probe("udp_recv_truncated")
            return data[:bufsize], addr
        if self._udp_err:
            num, self._udp_err = self._udp_err, None
            raise _err(num, ConnectionRefusedError)
        raise _err(errno.EBADF)

    # ------------------------------------------------------------ closing
    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._close_pending and self._io_refs <= 0:
            self._really_close()

    def close(self):
        if core.SIM.active:
            core.SIM.yield_point()
        self.close_count += 1
        if self._closed:
            return
        self._close_pending = True
        if self._io_refs <= 0:
            self._really_close()

    def _really_close(self):
        if self._closed:
            return
        self._closed = True
        NET.open_count -= 1
        NET.fds.pop(self._fd, None)
        sim = core.SIM
        if self.type == SOCK_DGRAM:
            if NET.udp.get(self._addr[1]) is self:
                del NET.udp[self._addr[1]]
            sim.wake_all(self._dg_w)
        if NET.listeners.get(self._addr[1]) is self:
            del NET.listeners[self._addr[1]]
            for conn in self._backlog:
                conn._abort()
        sim.wake_all(self._accept_w)
        if self._rx is not None:
            rx, tx = self._rx, self._tx
            rx.rd_closed = True
            if rx.buf and not tx.closing:
                # unread data: the kernel sends a reset
                tx.abort()
            else:
                tx.finish()
            rx.changed()
            tx.changed()
        self._changed()

    def _abort(self):
        """Abortive close (RST) as seen by the peer."""
        if self._rx is not None:
            self._rx.rd_closed = True
            self._rx.reset = True
            self._tx.abort()
            self._rx.changed()
        if not self._closed:
            self._closed = True
            NET.open_count -= 1
            NET.fds.pop(self._fd, None)
        self._changed()

    # ------------------------------------------------------------ files
    def makefile(self, mode="r", buffering=None, *, encoding=None,
                 errors=None, newline=None):
        raw = SimSocketIO(self, mode)
        self._io_refs += 1
        if buffering == 0:
            return raw
        if "w" in mode and "r" not in mode:
            return SimBufferedWriter(raw)
        if "r" in mode and "w" not in mode:
            return io.BufferedReader(raw)
        raise ValueError("unsupported makefile mode")

    # ------------------------------------------------------------ readiness
    def _readable(self):
        if self._closed:
            return True
        if self._listening:
            return bool(self._backlog)
        if self.type == SOCK_DGRAM:
            return bool(self._dgrams or self._udp_err)
        rx = self._rx
        return rx is not None and bool(
            rx.buf or rx.eof or rx.reset or self._rd_shut
        )

    def _writable(self):
        if self._closed or self.type == SOCK_DGRAM:
            return True
        tx = self._tx
        return tx is not None and (
            tx.space() > 0 or tx.reset or tx.rd_closed or self._wr_shut
        )

    def _watch(self, waiters):
        self.watched = True
        self._sel.append(waiters)
        if self._rx is not None:
            self._rx.selectors.append(waiters)
            self._tx.selectors.append(waiters)

    def _unwatch(self, waiters):
        for lst in [self._sel] + (
            [self._rx.selectors, self._tx.selectors] if self._rx else []
        ):
            if waiters in lst:
                lst.remove(waiters)


class SimSocketIO(io.RawIOBase):
    """Raw file over a simulated socket (socket.SocketIO semantics)."""

    def __init__(self, sock, mode):
        super().__init__()
        self._sock = sock
        self._reading = "r" in mode
        self._writing = "w" in mode
        self._timeout_occurred = False

    def readable(self):
        return self._reading

    def writable(self):
        return self._writing

    def fileno(self):
        return self._sock.fileno()

    @property
    def name(self):
        return self._sock._fd if not self.closed else -1

    @property
    def mode(self):
        return "rb" if self._reading else "wb"

    def readinto(self, buf):
        if self._timeout_occurred:
            raise OSError("cannot read from timed out object")
        sim = core.SIM
        while True:
            try:
                return self._sock_recv_into(buf)
            except _socket.timeout:
                self._timeout_occurred = True
                raise
            except BlockingIOError:
                return None

    def _sock_recv_into(self, buf):
        sock = self._sock
        data = SimSocket.recv(sock, len(buf)) if not sock._close_pending \
            else self._recv_pending(sock, len(buf))
        buf[: len(data)] = data
        return len(data)

    @staticmethod
    def _recv_pending(sock, n):
        # socket.close() was called but this file keeps it open
        sock._close_pending = False
        try:
            return SimSocket.recv(sock, n)
        finally:
            sock._close_pending = True

    def write(self, data):
        sock = self._sock
        if sock is None:
            raise ValueError("I/O operation on closed file.")
        if sock._close_pending and not sock._closed:
            sock._close_pending = False
            try:
                return sock.send(data)
            finally:
                sock._close_pending = True
        return sock.send(data)

    def close(self):
        if self.closed:
            return
        super().close()
        self._sock._decref_socketios()


class SimBufferedWriter:
    """io.BufferedWriter semantics in Python (so that it can yield)."""

    def __init__(self, raw, buffer_size=8192):
        from .sync import SimLock

        self.raw = raw
        self.buffer_size = buffer_size
        self._buf = bytearray()
        self._lock = SimLock()

    @property
    def closed(self):
        return self.raw.closed

    @property
    def name(self):
        return self.raw.name

    @property
    def mode(self):
        return "wb"

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return False

    def fileno(self):
        return self.raw.fileno()

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def tell(self):
        return self.raw.tell() + len(self._buf)

    def write(self, data):
        if self.closed:
            raise ValueError("write to closed file")
        view = memoryview(data).cast("B")
        n = len(view)
        with self._lock:
            if self.closed:
                raise ValueError("write to closed file")
            if len(self._buf) + n <= self.buffer_size:
                self._buf += view
                return n
            self._flush()
            pos = 0
            while n - pos > self.buffer_size:
                pos += self.raw.write(view[pos:]) or 0
            self._buf += view[pos:]
        return n

    def _flush(self):
        while self._buf:
            chunk = bytes(self._buf)
            k = self.raw.write(chunk)
            if k is None:
                raise BlockingIOError(errno.EAGAIN, "write could not complete")
            del self._buf[:k]

    def flush(self):
        if self.closed:
            raise ValueError("flush of closed file")
        with self._lock:
            self._flush()

    def close(self):
        if self.closed:
            return
        try:
            with self._lock:
                if not self.closed:
                    self._flush()
        finally:
            with self._lock:
                self.raw.close()

    def detach(self):
        self.flush()
        raw, self.raw = self.raw, None
        return raw


def create_connection(address, timeout=None, source_address=None, **_):
    sock = SimSocket(_socket.AF_INET, SOCK_STREAM)
    if isinstance(timeout, (int, float)):
        sock.settimeout(timeout)
    try:
        sock.connect(address)
    except OSError:
        sock.close()
        raise
    return sock


def create_server(*_, **__):
    raise core.SimError("create_server is not simulated")


def socketpair(family=None, type=SOCK_STREAM, proto=0):
    a, b = SimSocket(), SimSocket()
    p, q = Pipe(1 << 20), Pipe(1 << 20)
    p.local = q.local = True
    a._tx, a._rx, b._rx, b._tx = p, q, p, q
    a._peer = b._peer = ("local", 0)
    # socket pairs are in-process wake-up channels: no latency, no splitting
    for pipe in (p, q):
        pipe.push = lambda data, pipe=pipe: _local_push(pipe, data)
    return a, b


def _local_push(pipe, data):
    pipe.buf += data
    pipe.changed()


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if host is None or host == "":
        host = "0.0.0.0"
    if isinstance(host, bytes):
        host = host.decode()
    if not host.replace(".", "").isdigit():
        host = "127.0.0.1"
    if isinstance(port, str):
        port = int(port)
    port = port or 0
    out = []
    for kind in (SOCK_STREAM, SOCK_DGRAM):
        if type in (0, kind):
            out.append((_socket.AF_INET, kind, 6 if kind == SOCK_STREAM
                        else 17, "", (host, port)))
    return out


def getfqdn(name=""):
    return "localhost"


class SimSelector(_selectors.BaseSelector):
    """selectors.DefaultSelector over simulated sockets."""

    def __init__(self):
        self._map = {}
        self._w = Waiters()
        self._open = True

    @staticmethod
    def _fd(fileobj):
        if isinstance(fileobj, int):
            return fileobj
        fd = fileobj.fileno()
        if fd < 0:
            raise ValueError(f"Invalid file descriptor: {fd}")
        return fd

    def _obj(self, fileobj, fd):
        sock = NET.fds.get(fd)
        if sock is None:
            raise ValueError(f"Invalid file object: {fileobj!r}")
        return sock

    def register(self, fileobj, events, data=None):
        if (not events) or (events & ~3):
            raise ValueError(f"Invalid events: {events!r}")
        fd = self._fd(fileobj)
        if fd in self._map:
            raise KeyError(f"{fileobj!r} (FD {fd}) is already registered")
        sock = self._obj(fileobj, fd)
        key = _selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = (key, sock)
        sock._watch(self._w)
        core.SIM.wake_all(self._w)
        return key

    def _lookup(self, fileobj):
        if isinstance(fileobj, int):
            return fileobj
        fd = fileobj.fileno()
        if fd < 0:
            for k, (key, _) in self._map.items():
                if key.fileobj is fileobj:
                    return k
            raise ValueError(f"Invalid file descriptor: {fd}")
        return fd

    def unregister(self, fileobj):
        fd = self._lookup(fileobj)
        if fd not in self._map:
            raise KeyError(f"{fileobj!r} is not registered")
        key, sock = self._map.pop(fd)
        sock._unwatch(self._w)
        return key

    def modify(self, fileobj, events, data=None):
        fd = self._lookup(fileobj)
        if fd not in self._map:
            raise KeyError(f"{fileobj!r} is not registered")
        key, sock = self._map[fd]
        key = _selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = (key, sock)
        return key

    def get_key(self, fileobj):
        fd = self._lookup(fileobj)
        if fd not in self._map:
            raise KeyError(f"{fileobj!r} is not registered")
        return self._map[fd][0]

    def get_map(self):
        return {fd: k for fd, (k, _) in self._map.items()}

    def _ready(self):
        out = []
        for key, sock in self._map.values():
            ev = 0
            if key.events & 1 and sock._readable():
                ev |= 1
            if key.events & 2 and sock._writable():
                ev |= 2
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        sim = core.SIM
        sim.yield_point()
        ready = self._ready()
        if ready or (timeout is not None and timeout <= 0):
            if not ready:
                sim.cur.spin += 1
            return ready
        deadline = None if timeout is None else sim.now + timeout
        while True:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left <= 0:
                    return []
            sim.block(self._w, left)
            ready = self._ready()
            if ready:
                return ready

    def close(self):
        for key, sock in self._map.values():
            sock._unwatch(self._w)
        self._map.clear()
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()
