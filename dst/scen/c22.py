"""C22: UDP outputs added, removed, listed and failing during production."""

import errno
import json
import socket

from ..child import sched_cfg
from . import common as c
from .common import check
from .c01 import MemStream
from .frames import make_env

SHRINK = ["actors", "actors.0", "actors.1", "frames"]
RUNS = {"quick": 800, "thorough": 40000}
REAL = ("UdpClientManager, UDP commands, CommandQueueDaemon, StreamWriter, "
        "mtu discovery (sockets, threads and clock are simulated)")
ERRNOS = (errno.ENETUNREACH, errno.EPERM, errno.ENOBUFS, errno.EHOSTUNREACH,
          errno.EMSGSIZE)


def gen(rng, tier):
    actors = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        ops = []
        for _ in range(rng.randint(1, 9)):
            kind = rng.choice(("add", "add", "add", "add", "rm", "rm", "rm",
                               "rmunknown", "rmother", "list", "list1",
                               "badadd", "sleep", "rmall", "rmtwice"))
            if kind == "rmall" and rng.random() < 0.6:
                kind = "add"
            op = [kind, rng.choice(("api", "api", "cmd", "str")),
                  rng.randrange(1000)]
            if kind == "add":
                op += [rng.choice(("yes", "yes", "yes", "no", "late")),
                       rng.choice((None, None, 0, 1, 2, 3, 5)),
                       rng.choice(ERRNOS)]
            ops.append(op)
        actors.append(ops)
    cfg = sched_cfg(rng)
    burst = []
    if rng.random() < 0.35:
        # outputs that fail as soon as they are added
        for ops in actors:
            for op in ops:
                if op[0] == "add":
                    op[4] = rng.choice((1, 1, 1, 2))
        burst = [[0, rng.choice((0, 1e-5, 2e-4))]
                 for _ in range(rng.choice((30, 80)))]
        if rng.random() < 0.5:
            cfg.update(strategy="rw", p=rng.choice((0.2, 0.5)),
                       stall_p=rng.choice((0.1, 0.5)), instr=1.0)
    return {
        "cfg": cfg,
        "net": {"lat_max": rng.choice((1e-4, 1e-3))},
        "actors": actors,
        "frames": burst + [[rng.choice((0, 1, 5, 30, 60)),
                    rng.choice((0, 0, 0, 1e-5, 1e-4, 1e-3, 0.02))]
                   for _ in range(rng.randint(0, 25))]
        + [[1200, 0]] * (rng.random() < 0.03),
        "env": rng.random() < 0.5,
    }


class Out:
    def __init__(self, port, listen):
        self.port = port
        self.listen = listen
        self.fail_at = None
        self.errno = None
        self.count = 0  # datagrams attempted
        self.failed = False
        self.ident = None
        self.sock = None
        self.add_call = self.add_ret = None
        self.rm_call = self.rm_ret = None
        self.sent0 = 0
        self.name = None


def run(sim, plan):
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.udp_client_manager import create_udp_client_commander
    from vtelem.frame.framer import Framer
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    from .. import net

    env = make_env(metrics=1.0)
    denv = env if plan["env"] else None
    reg = env.channel_registry
    chan = next(i for i in range(40) if reg.get_item(i) is not None
                and reg.get_item(i).type is Primitive.UINT32)
    writer, queue = default_writer("writer", env=denv)
    framer = Framer(32768, 0.5)
    manager = UdpClientManager(writer)
    cmds = CommandQueueDaemon("cmds", denv)
    create_udp_client_commander(manager, cmds)

    outs = []
    by_port = {}
    other = MemStream()
    closes = []
    other_id = writer.add_stream(other, lambda: closes.append(1))
    number = [0]
    sent = []
    wire = {}

    def hook(sock, port, data):
        out = by_port.get(port)
        if out is None:
            return None
        if out.sock is None:
            out.sock = sock
        check(out.sock is sock, "harness", "socket changed")
        n = out.count
        out.count += 1
        if out.fail_at is not None and n == out.fail_at:
            sim.fault("udp_send_error")
            if n:
                out.failed = True
            return out.errno
        check(not out.failed, "sent-after-error",
              f"output {out.ident} is still written after it failed")
        return None

    net.NET.udp_hook = hook

    def push(extra):
        number[0] += 1
        frame = framer.new_frame("data", float(number[0]))
        for k in range(1 + extra):
            frame.add(chan, Primitive.UINT32, number[0] + k)
        frame.finalize()
        data = c.wire(frame)
        data = len(data).to_bytes(4, "big") + data
        ident = number[0]
        wire[data] = ident
        sent.append(ident)
        queue.put(frame)

    assert writer.start()
    assert cmds.start()
    receivers = []
    wins = {}  # identifier -> successful remove commands

    def receiver(port):
        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        sock.bind(("127.0.0.1", port))
        receivers.append(sock)

    def execute(data):
        t0 = sim.now
        ok, msg = cmds.execute({"command": "udp", "data": data})
        if not ok and sim.now - t0 >= 1.99 and "not known" in msg:
            sim.probe("result_unknown")
            return None, msg
        return ok, msg

    def add(op):
        _, via, _, listen, fail_at, num = op
        out = Out(net.NET.port(), listen)
        out.fail_at, out.errno = fail_at, num
        if listen == "yes":
            receiver(out.port)
        elif listen == "no":
            sim.fault("udp_destination_closed")
        by_port[out.port] = out
        out.add_call = sim.step
        if via == "api":
            ident, mtu = manager.add_client(Host("127.0.0.1", out.port))
            check(mtu == net.NET.mtu - 68, "wrong-mtu",
                  f"{mtu}, not {net.NET.mtu - 68}")
        else:
            port = str(out.port) if via == "str" else out.port
            outs.append(out)
            ok, msg = execute({"operation": "add", "host": "127.0.0.1",
                               "port": port})
            outs.remove(out)
            if ok is None:
                out.ident = None
                st["unknown"] = True
                outs.append(out)
                return
            if not ok:
                # it may have failed, or be removed, in the meantime
                check("removed" in msg and (
                    out.failed or st["rmall"] or st["guess"]),
                    "add-failed", f"{via}: {msg}")
                out.rm_call = out.rm_ret = sim.step
                out.ident = int(msg.split("'")[1])
            else:
                ident = int(msg.split("'")[1])
                check(f"mtu '{net.NET.mtu - 68}'" in msg, "wrong-mtu", msg)
                out.ident = ident
        if out.ident is None:
            out.ident = ident
        out.add_ret = sim.step
        out.sent0 = len(sent)
        check(all(o.ident != out.ident for o in outs), "id-reused",
              f"{out.ident}")
        check(out.ident != other_id, "id-reused", "another stream's")
        outs.append(out)
        if listen == "late":
            sim.fault("udp_destination_opens_late")
            c.sleep(0.001)
            receiver(out.port)

    def remove(via, ident, out=None):
        if out is not None and out.rm_call is None:
            out.rm_call = sim.step
        if via == "api":
            manager.remove_client(ident)
            ok = True
        else:
            ok, msg = execute({"operation": "remove", "id": str(ident)
                               if via == "str" else ident})
            if ok:
                check(f"'{ident}' removed" in msg, "wrong-reply", msg)
                wins[ident] = wins.get(ident, 0) + 1
                check(wins[ident] == 1, "removed-twice", str(ident))
            elif ok is not None:
                check("unknown client" in msg and str(ident) in msg,
                      "wrong-reply", msg)
                check(out is None or out.failed or out.removers > 1
                      or st["rmall"], "wrong-reply",
                      f"{ident} is not known: {msg}")
        if out is not None and ok is not None:
            if out.rm_ret is None:
                out.rm_ret = sim.step
            # (another operation, or the writer, may be about to close it)
            check(out.sock is None or out.sock._closed or out.failed
                  or out.removers > 1 or st["rmall"], "socket-left",
                  f"the socket of {ident} is open after its removal")
            check(ident not in manager.clients, "not-removed", str(ident))
        return ok

    st = {"rmall": 0, "unknown": False, "guess": 0}

    def actor(ops):
        for op in ops:
            kind, via, salt = op[:3]
            if kind == "add":
                add(op)
            elif kind in ("rm", "rmtwice"):
                have = [o for o in outs if o.add_ret is not None]
                if not have:
                    continue
                out = have[salt % len(have)]
                out.removers = getattr(out, "removers", 0) + 1
                remove(via, out.ident, out)
                if kind == "rmtwice":
                    out.removers += 1
                    remove(via, out.ident, out)
            elif kind == "rmunknown":
                # (an identifier that won't be used)
                remove(via, (-1, 10 ** 6, 10 ** 6 + salt)[salt % 3])
            elif kind == "rmother":
                remove(via, other_id)
            elif kind in ("list", "list1"):
                listing(kind, via, salt)
            elif kind == "badadd":
                badadd(via, salt)
            elif kind == "rmall":
                st["rmall"] += 1
                now = [o for o in outs if o.add_ret is not None]
                for o in outs:
                    if o.rm_call is None:
                        o.rm_call = sim.step
                        o.maybe = o not in now
                begin = sim.step
                manager.remove_all()
                for o in now:
                    if o.rm_ret is None:
                        o.rm_ret = sim.step
                    check(o.ident not in manager.clients, "not-removed",
                          f"{o.ident} after remove_all")
                for o in by_port.values():
                    # added while everything got removed
                    if o not in now and o.add_call < sim.step and (
                            o.add_ret is None or o.add_ret > begin):
                        o.maybe = True
            else:
                c.sleep((1e-5, 1e-4, 1e-3, 0.02)[salt % 4])

    def listing(kind, via, salt):
        sure = {o.ident: o for o in outs if o.add_ret is not None
                and o.rm_call is None and o.fail_at in (None, 0)}
        if st["rmall"]:
            sure = {}
        cmd = {"operation": "list"}
        if kind == "list1":
            if not sure:
                return
            pick = sorted(sure)[salt % len(sure)]
            cmd["id"] = str(pick) if via == "str" else pick
            sure = {pick: sure[pick]}
        ok, msg = execute(cmd)
        if ok is None:
            return
        # those nobody began to remove meanwhile
        sure = {i: o for i, o in sure.items() if o.rm_call is None}
        if not ok:
            check(kind == "list1" and not sure or st["rmall"],
                  "wrong-list", msg)
            return
        have = {int(k): v for k, v in json.loads(msg).items()}
        if not st["rmall"]:
            check(set(sure) <= set(have), "wrong-list",
                  f"{have}, without {set(sure) - set(have)}")
        for ident, text in have.items():
            out = next((o for o in outs if o.ident == ident), None)
            if out is not None and out.sock is not None:
                want = "%s:%d" % out.sock._addr
                check(text == want, "wrong-list", f"{text}, not {want}")

    def badadd(via, salt):
        bad = [("127.0.0.1", -1), ("127.0.0.1", 70000), ("127.0.0.1", None),
               ("127.0.0.1", "x"), (None, 5), (7, 5)][salt % 6]
        if via == "api":
            try:
                manager.add_client(Host(*bad))
            except (TypeError, ValueError, OverflowError):
                return
            check(False, "bad-add", f"{bad} was accepted")
        cmd = {"operation": "add", "host": bad[0], "port": bad[1]}
        if salt % 4 == 1:
            del cmd["host"]
        elif salt % 4 == 2:
            del cmd["port"]
        elif salt % 4 == 3:
            cmd["operation"] = ("ad", None, 3)[salt % 3]
        ok, msg = execute(cmd)
        check(not ok, "bad-add", f"{cmd}: {msg}")

    def in_use():
        """Open sockets (the interpreter closes those never connected)."""
        return sum(1 for s in net.NET.fds.values()
                   if s._peer is not None or s._addr[1])

    crew = c.Crew()
    for ops in plan["actors"]:
        crew.go(actor, ops)

    def produce():
        for extra, pause in plan["frames"]:
            push(extra)
            if pause:
                c.sleep(pause)

    crew.go(produce)
    crew.join(200.0, "operations")
    # (commands whose result came too late are executed by then)
    c.wait_until(lambda: execute({"operation": "list"})[0], limit=600.0,
                 what="command queue servicing")
    # settle, then two rounds: failed outputs are noticed by then
    c.wait_until(lambda: queue.empty(), what="frames written")
    c.sleep(0.05)
    for _ in range(8):
        push(1)
        c.sleep(0.02)
    mark = len(sent)
    for _ in range(3):
        push(2)
        c.sleep(0.02)
    c.wait_until(lambda: other.data.endswith(
        next(d for d, i in wire.items() if i == sent[-1])),
        what="last frame at the other output")
    last = next(d for d, i in wire.items() if i == sent[-1])

    def everywhere():
        reached = {port for _, port, data in net.NET.udp_log if data == last}
        return all(o.port in reached for o in outs
                   if o.ident in manager.clients)

    c.poll(everywhere, limit=30.0)
    c.sleep(0.5)

    # exactly the outputs that were added, and neither removed nor failed
    have = set(manager.clients)
    if not st["unknown"]:
        for out in outs:
            gone = out.rm_ret is not None or out.failed
            if getattr(out, "maybe", False) and not out.failed:
                continue
            check((out.ident in have) is not gone, "wrong-outputs",
                  f"{out.ident} (removed {out.rm_ret}, failed {out.failed}): "
                  f"clients are {sorted(have)}")
        check(have <= {o.ident for o in outs}, "wrong-outputs",
              f"{have}, added {[o.ident for o in outs]}")
    check(set(writer.streams) == have | {other_id}, "wrong-outputs",
          f"streams {sorted(writer.streams)}, clients {sorted(have)}")
    check(not closes, "wrong-outputs", "another output was closed")
    if plan["env"]:
        check(env.get_metric("writer.stream_count") == len(have) + 1,
              "wrong-count", f"{env.get_metric('writer.stream_count')}")
    for ident in have:
        check(not manager.clients[ident][0]._closed, "closed-in-use",
              f"the socket of {ident}")
    want = len(have) + len(receivers)
    check(in_use() == want, "socket-left",
          f"{in_use()} sockets are open, not {want}: "
          f"{[(s._addr, s._peer) for s in net.NET.fds.values()]}")

    # every frame is one datagram at every output
    log = {}
    for _, port, data in net.NET.udp_log:
        log.setdefault(port, []).append(data)
    for out in by_port.values():
        grams = log.get(out.port, [])
        if out.fail_at != 0 and out.add_ret is not None:
            check(grams, "no-probe", "nothing was sent")
            grams = grams[1:]  # (mtu discovery)
        elif out.add_ret is None and grams and grams[0] not in wire:
            grams = grams[1:]
        for data in grams:
            check(data in wire, "bad-datagram",
                  f"{data[:40]!r} ({len(data)} bytes) is no frame")
        got = [wire[d] for d in grams]
        if out.listen == "yes":
            at = c.find_run(got, sent)
            check(at is not None, "gap", f"{out.ident}: {got}")
        else:
            check(got == sorted(set(got)), "gap", f"{out.ident}: {got}")
            at = sent.index(got[0]) if got else 0
        if out.add_ret is None:
            continue
        if got:
            check(at <= out.sent0, "gap", f"{out.ident} begins with {got[0]},"
                  f" {out.sent0} frames were there when it was added")
        if out.ident in have:
            check(got[-3:] == sent[mark:], "gap",
                  f"{out.ident} got {got} of {sent}")
    got, _ = c.split_frames(other.data, "other output")
    check(len(got) == len(sent), "gap",
          f"{len(got)} of {len(sent)} frames at the other output")

    manager.remove_all()
    check(not manager.clients, "not-removed", "remove_all")
    for sock in receivers:
        sock.close()
    check(in_use() == 0, "socket-left", f"{in_use()}")
    for daemon in (cmds, writer):
        check(daemon.stop(100), "stop-failed", daemon.name)
    check(set(writer.streams) == {other_id}, "wrong-outputs",
          f"{writer.streams}")
