"""Installs the simulated seams and imports the code under test."""

import os
import sys

REPO = os.environ.get("VTELEM_REPO", "/repo")

_installed = False
TOOL = 3


def install():
    """Patch the standard library, then import vtelem.  Call once, early."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    from . import core, net, sync, disk

    # -- things that must be imported with the real primitives
    import logging
    import random  # noqa: F401
    import json  # noqa: F401
    import socket
    import selectors
    import threading
    import time
    import _thread

    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False

    # -- locks and threads
    threading.Lock = sync.allocate_lock
    threading._allocate_lock = sync.allocate_lock
    threading.RLock = sync.rlock_factory
    threading._RLock = sync.SimRLock
    threading._CRLock = sync.SimRLock
    threading._PyRLock = sync.SimRLock
    threading._set_sentinel = sync.set_sentinel
    real_start = threading._start_new_thread

    def start_new_thread(func, args, kwargs=None):
        sim = core.SIM
        if sim is None:
            return real_start(func, args, kwargs or {})
        hook = getattr(sim, "thread_fault", None)
        if hook is not None and hook(getattr(func, "__self__", None)):
            raise RuntimeError("can't start new thread")
        return sim.start_new_thread(func, args, kwargs)

    threading._start_new_thread = start_new_thread
    orig_boot = threading.Thread._bootstrap

    def _bootstrap(self):
        sim = core.SIM
        if sim is not None and sim.cur is not None:
            sim.cur.name = self._name
        orig_boot(self)

    threading.Thread._bootstrap = _bootstrap

    def excepthook(args):
        sim = core.SIM
        if sim is not None:
            name = args.thread.name if args.thread else "?"
            sim.uncaught.append((name, args.exc_value))

    threading.excepthook = excepthook

    # -- time
    real_time, real_mono, real_sleep = time.time, time.monotonic, time.sleep

    def sim_time():
        sim = core.SIM
        if sim is None:
            return real_time()
        return sim.read_time() + sim.wall_offset

    def sim_mono():
        sim = core.SIM
        if sim is None:
            return real_mono()
        return sim.read_time() + 1000.0

    def sim_sleep(secs):
        sim = core.SIM
        if sim is None:
            return real_sleep(secs)
        if secs > threading.TIMEOUT_MAX:
            raise OverflowError("timestamp too large to convert to C PyTime_t")
        sim.sleep(float(secs))

    time.time = sim_time
    time.sleep = sim_sleep
    time.monotonic = sim_mono
    time.perf_counter = sim_mono
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_mono() * 1e9)
    threading._time = sim_mono

    # -- sockets and selectors
    socket.socket = net.SimSocket
    socket.SocketType = net.SimSocket
    socket.socketpair = net.socketpair
    socket.create_connection = net.create_connection
    socket.getaddrinfo = net.getaddrinfo
    socket.getfqdn = net.getfqdn
    socket.gethostbyname = lambda name: "127.0.0.1"
    socket.gethostname = lambda: "localhost"
    for name in ("DefaultSelector", "PollSelector", "EpollSelector",
                 "SelectSelector"):
        setattr(selectors, name, net.SimSelector)

    # -- randomness
    import random as rnd
    import secrets

    secrets.token_bytes = lambda n=32: rnd.randbytes(n)
    secrets.token_hex = lambda n=32: rnd.randbytes(n).hex()
    os.urandom = lambda n: rnd.randbytes(n)

    # -- modules that captured primitives by name
    import queue

    queue.time = sim_mono
    queue.threading = threading
    import tempfile

    tempfile._allocate_lock = sync.allocate_lock
    import io
    import _pyio  # noqa: F401
    import socketserver
    import http.server  # noqa: F401
    import concurrent.futures  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    concurrent.futures.thread.queue.SimpleQueue = queue._PySimpleQueue
    import asyncio
    import asyncio.tasks
    import asyncio.futures
    import ssl  # noqa: F401

    socketserver._ServerSelector = net.SimSelector

    def handle_error(self, request, client_address):
        sim = core.SIM
        exc = sys.exc_info()[1]
        if sim is not None:
            sim.swallowed.append(("socketserver", exc))

    socketserver.BaseServer.handle_error = handle_error

    # deterministic asyncio: Python tasks/futures with sequential hashes
    _fix_asyncio(asyncio)

    disk.install()

    # -- code under test
    import websockets  # noqa: F401
    import websockets.legacy.client  # noqa: F401
    import websockets.legacy.server  # noqa: F401
    # (a server keeps its connections in a set)
    websockets.legacy.protocol.WebSocketCommonProtocol.__hash__ = \
        asyncio.Future.__hash__
    import importlib
    import pkgutil

    import vtelem

    for mod in sorted(
        m.name
        for m in pkgutil.walk_packages(vtelem.__path__, "vtelem.")
    ):
        if mod.endswith(".__main__"):
            continue
        importlib.import_module(mod)
    time_mod = sys.modules["time"]
    assert time_mod.sleep is sim_sleep
    _ = io


def _fix_asyncio(asyncio):
    import itertools

    tasks, futures = asyncio.tasks, asyncio.futures
    pyfut, pytask = futures._PyFuture, tasks._PyTask
    counter = itertools.count(1)

    def _hash(self):
        h = self.__dict__.get("_sim_hash")
        if h is None:
            h = self.__dict__["_sim_hash"] = next(counter)
        return h

    pyfut.__hash__ = _hash
    pytask.__hash__ = _hash
    futures.Future = asyncio.Future = pyfut
    tasks.Task = asyncio.Task = pytask
    tasks.Future = pyfut
    futures.isfuture = asyncio.isfuture
    for mod in list(sys.modules.values()):
        name = getattr(mod, "__name__", "")
        if name.startswith("asyncio."):
            if getattr(mod, "futures", None) is not None:
                mod.futures.Future = pyfut
    real_all = tasks.all_tasks

    def all_tasks(loop=None):
        found = real_all(loop)
        return set(sorted(found, key=hash))

    asyncio.all_tasks = tasks.all_tasks = all_tasks

    def exc_handler(self, context):
        from . import core

        sim = core.SIM
        exc = context.get("exception")
        if sim is not None:
            sim.swallowed.append(
                ("asyncio " + str(context.get("message")), exc)
            )

    asyncio.BaseEventLoop.default_exception_handler = exc_handler


# ------------------------------------------------------------------ tracing
_CODES = []


def code_objects():
    """All function code objects of the code under test, in a fixed order."""
    import types as _t

    if _CODES:
        return _CODES
    out = _CODES
    seen = set()
    prefix = os.path.join(REPO, "vtelem") + os.sep
    prefix2 = os.path.realpath(prefix) + os.sep

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        out.append(code)
        for const in code.co_consts:
            if isinstance(const, _t.CodeType):
                walk(const)

    import gc

    roots = []
    for obj in gc.get_objects():
        if isinstance(obj, _t.FunctionType):
            fn = obj.__code__.co_filename
            if fn.startswith(prefix) or fn.startswith(prefix2):
                roots.append(obj.__code__)
    roots.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    for code in roots:
        walk(code)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out
