"""C17: registries used by several threads: one permanent identifier per name."""

import json

from ..child import sched_cfg
from . import common as c
from .common import check

SHRINK = ["threads", "steps"]
RUNS = {"quick": 2500, "thorough": 80000}
REAL = ("Registry, ChannelRegistry, EnumRegistry (both), TypeRegistry, "
        "ServiceRegistry, ChannelGroupRegistry, TelemetryEnvironment")

KINDS = ("type", "service", "channel", "enum", "newenum", "group",
         "env_channel", "env_enum", "env_mixed")
OPS = ("add", "add", "add", "id", "item", "describe", "describe", "count",
       "export")


def gen(rng, tier):
    threads = []
    ops = OPS + ("export",) * rng.choice((0, 0, 8))
    names = rng.randint(1, 8)
    for _ in range(rng.randint(2, 4)):
        threads.append([
            [rng.choice(ops), rng.randrange(names), rng.randrange(20),
             rng.random() < 0.5]
            for _ in range(rng.randint(1, 8))
        ])
    return {
        "cfg": sched_cfg(rng), "kind": "enum" if len(ops) > len(OPS) else rng.choice(KINDS),
        "threads": threads,
        "names": names, "metrics": rng.random() < 0.4,
    }


class Reg:
    """One kind of registry: how to use it and what it describes."""

    def __init__(self, kind, metrics):
        from vtelem.enums.primitive import Primitive, get_name
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.kind = kind
        self.initial = {}
        self.prim = Primitive
        rate = 1.0 if metrics else None
        if kind in ("env_channel", "env_enum", "env_mixed", "group"):
            self.env = TelemetryEnvironment(1500, init_time=1.0,
                                            metrics_rate=rate,
                                            app_id_basis=0.5)
        if kind == "type":
            from vtelem.registry.type import get_default
            self.reg = get_default()
            self.initial = {get_name(p): i for i, p in enumerate(Primitive)}
            self.key = "types"
        elif kind == "service":
            from vtelem.registry.service import ServiceRegistry
            self.reg = ServiceRegistry()
            self.key = "services"
        elif kind == "channel":
            from vtelem.channel.registry import ChannelRegistry
            self.reg = ChannelRegistry()
            self.key = "channels"
        elif kind == "enum":
            from vtelem.registry.enum import EnumRegistry
            self.reg = EnumRegistry()
            self.key = "enums"
        elif kind == "newenum":
            from vtelem.registry.enum_retry import EnumRegistry as New
            self.reg = New()
            self.key = "enums"
        elif kind == "group":
            from vtelem.channel.group_registry import ChannelGroupRegistry
            self.reg = ChannelGroupRegistry(self.env)
            self.key = "channel_groups"
        elif kind == "env_channel":
            self.reg = self.env.channel_registry
            self.key = "channels"
        else:
            self.reg = self.env.enum_registry
            self.key = "enums"
        if kind.startswith("env_"):
            self.initial = dict(
                json.loads(self.reg.describe())["mappings"])
        self.given = {}     # object handed to a successful add, by name

    def name(self, i):
        return f"name{chr(97 + i)}"

    def make(self, i, variant):
        from vtelem.channel import Channel
        from vtelem.classes.user_enum import user_enum

        prims = list(self.prim)
        if self.kind == "type":
            return prims[variant % len(prims)]
        if self.kind == "service":
            return [("host", variant)]
        if self.kind == "channel":
            return Channel(self.name(i), prims[variant % len(prims)], 1.0)
        if self.kind == "env_mixed" and variant % 2:
            return self.prim.INT8
        if self.kind in ("enum", "newenum", "env_enum", "env_mixed"):
            return user_enum(self.name(i), {0: f"v{variant}", 1: "b"})
        return prims[variant % len(prims)]

    def add(self, i, obj):
        """(accepted, identifier) of a registration."""
        kind = self.kind
        name = self.name(i)
        if kind in ("type", "service"):
            return self.reg.add(name, obj)
        if kind == "channel":
            return self.reg.add_channel(obj)
        if kind == "enum":
            return self.reg.add_enum(obj)
        try:
            if kind == "newenum":
                return True, self.reg.add(obj)
            if kind == "group":
                return True, self.reg.create_group(name)
            if kind == "env_channel":
                return True, self.env.add_channel(name, obj, 1.0)
            if isinstance(obj, self.prim) and kind == "env_mixed":
                # competes with an enum of that name
                return self.env.type_registry.add(name, obj)
            # an enum that's already known is not added again
            return True, self.env.add_enum(obj)
        except AssertionError:
            return False, -1

    def get_id(self, name):
        if self.kind == "newenum":
            for num, known in list(self.reg.data["mappings"].items()):
                if known == name:
                    return num
            return None
        return self.reg.get_id(name)

    def get_item(self, num):
        if self.kind == "newenum":
            try:
                return self.reg.get_enum(num)
            except (KeyError, AssertionError):
                return None
        return self.reg.get_item(num)

    def describe(self, indented):
        """name -> identifier as described, and the described items by id."""
        if self.kind == "newenum":
            doc = json.loads(self.reg.json_str(2 if indented else None))
            maps = {v: int(k) for k, v in doc["mappings"].items()}
            items = {maps.get(k): v for k, v in doc["enums"].items()}
            check(len(maps) == len(doc["mappings"]), "described-twice",
                  f"{doc['mappings']}")
            return maps, items
        doc = json.loads(self.reg.describe(indented))
        return (doc["mappings"], {int(k): v
                                  for k, v in doc[self.key].items()})

    def count(self):
        if self.kind == "newenum":
            return self.reg.curr_id
        return self.reg.count()

    def idempotent(self):
        return self.kind in ("env_enum", "env_mixed")


def run(sim, plan):
    from vtelem.registry.type import get_default

    reg = Reg(plan["kind"], plan["metrics"])
    types = get_default()
    base = len(reg.initial)
    stamp = [0]
    hist = []       # (op, arg, result, begin, end)

    def worker(ops):
        for op, i, variant, indented in ops:
            name = reg.name(i)
            obj = reg.make(i, variant) if op == "add" else None
            stamp[0] += 1
            t0 = stamp[0]
            if op == "add":
                res = reg.add(i, obj)
            elif op == "id":
                res = reg.get_id(name)
            elif op == "item":
                i = base + variant % 10
                res = reg.get_item(i)
            elif op == "describe":
                res = reg.describe(indented)
            elif op == "export":
                if plan["kind"] != "enum":
                    continue
                if indented:
                    res = reg.reg.export(types)
                else:
                    res = types.add(name, reg.prim.INT8)[0]
            else:
                res = reg.count()
            stamp[0] += 1
            what = "export" if indented else "type"
            hist.append((op, i, res, t0, stamp[0], obj, what))

    crew = c.Crew()
    for w, ops in enumerate(plan["threads"]):
        crew.go(worker, ops, name=f"w{w}")
    crew.join(what="registrations")

    verify(sim, plan, reg, hist)
    if plan["kind"] == "enum":
        verify_export(reg, types, hist)


def verify_export(reg, types, hist):
    enums = reg.describe(False)[0]
    known = json.loads(types.describe())["mappings"]
    taken = {reg.name(x[1]) for x in hist
             if x[0] == "export" and x[5] is None and x[6] == "type"
             and x[2]}
    clash = taken & set(enums)
    for op, i, res, t0, t1, _, what in hist:
        if op == "export" and what == "export" and not res:
            check(clash, "export", f"failed without a conflict: {known}")
    for _ in range(2):
        got = reg.reg.export(types)
        check(got is not bool(clash), "export",
              f"{got}, enums {enums}, types {taken}")
        known = json.loads(types.describe())["mappings"]
        maps = json.loads(reg.reg.describe())["global_mappings"]
        names = {v: k for k, v in enums.items()}
        want = {str(known[names[e]]): e for e in maps.values() if e in names}
        check(maps == want, "export", f"{maps}, not {want}: {enums} {known}")
        check(not any(names[e] in taken for e in maps.values()), "export",
              f"{maps} {taken}")
        if got:
            check(len(maps) == len(enums), "export", f"{maps} {enums}")


def verify(sim, plan, reg, hist):
    base = len(reg.initial)
    mixed = plan["kind"] == "env_mixed"
    final, items = reg.describe(False)
    sim.probe("registered", len(final) - base)
    # dense, both directions
    check(sorted(final.values()) == list(range(len(final))), "not-dense",
          f"{final}")
    check(sorted(items) == list(range(len(final))), "maps-differ",
          f"{sorted(items)} {final}")
    check(reg.count() == len(final), "wrong-count",
          f"{reg.count()} {len(final)}")
    for name, num in final.items():
        check(reg.get_id(name) == num, "maps-differ", f"{name} {num}")
        check(reg.get_item(num) is not None, "maps-differ", f"{name} {num}")
    for name, num in reg.initial.items():
        check(final.get(name) == num, "id-changed", f"{name} {num} {final}")

    # registrations
    wins = {}
    types = []
    for op, i, res, t0, t1, obj, _ in hist:
        if op != "add":
            continue
        if mixed and isinstance(obj, reg.prim):
            if res[0]:
                check(reg.name(i) not in final, "registered-twice",
                      f"{reg.name(i)} is a type and an enum")
                types.append((reg.name(i), t0))
            continue
        if res[0]:
            wins.setdefault(reg.name(i), []).append((res[1], t0, t1, obj))
    for name, got in wins.items():
        ids = {x[0] for x in got}
        check(len(ids) == 1, "registered-twice", f"{name}: {got}")
        if not reg.idempotent():
            check(len(got) == 1, "registered-twice", f"{name}: {got}")
        check(final.get(name) == got[0][0], "id-changed",
              f"{name}: {got}, {final}")
        item = reg.get_item(got[0][0])
        if plan["kind"] in ("type", "service", "channel", "enum", "newenum",
                            "env_enum"):
            check(any(item is x[3] for x in got), "wrong-item", name)
    check(set(final) == set(wins) | set(reg.initial), "phantom",
          f"{set(final) ^ (set(wins) | set(reg.initial))}")

    # when each name became visible: within the first successful add
    when = {n: (min(x[1] for x in got), min(x[2] for x in got))
            for n, got in wins.items()}
    lo_of = {n: w[0] for n, w in when.items()}
    hi_of = {n: w[1] for n, w in when.items()}
    # identifiers follow the order of registrations
    order = sorted(wins, key=lambda n: final[n])
    for k, a in enumerate(order):
        for b in order[k + 1:]:
            check(lo_of[a] < hi_of[b], "id-order",
                  f"{b} was registered before {a}: {when}")
    # a rejected name was taken
    for op, i, res, t0, t1, obj, _ in hist:
        name = reg.name(i)
        if op == "add" and not res[0]:
            check((name in lo_of and lo_of[name] < t1) or any(
                n == name and t < t1 for n, t in types), "rejected-new",
                  f"{name} {when} {types}")
        elif op == "id":
            if res is None:
                check(name not in hi_of or hi_of[name] > t0, "lookup-lost",
                      f"{name} {when} at {t0}")
            else:
                check(final.get(name) == res and lo_of.get(name, -1) < t1,
                      "lookup-wrong", f"{name} {res} {final}")
        elif op == "item":
            names = [n for n, v in final.items() if v == i]
            if res is None:
                check(not names or hi_of.get(names[0], -1) > t0,
                      "lookup-lost", f"{i} {final} at {t0}")
            else:
                check(names and lo_of.get(names[0], -1) < t1,
                      "lookup-wrong", f"{i} {final}")
                check(res is reg.get_item(i), "item-changed", f"{i}")
        elif op in ("describe", "count"):
            if op == "describe":
                maps, its = res
                n = len(maps)
                check(sorted(maps.values()) == list(range(n)), "torn-snapshot",
                      f"{maps}")
                check(sorted(its) == list(range(n)), "torn-snapshot",
                      f"{maps} {sorted(its, key=str)}")
                check(all(final.get(k) == v for k, v in maps.items()),
                      "id-changed", f"{maps} {final}")
            else:
                n = res
            known = sum(1 for x in hi_of.values() if x < t0)
            begun = sum(1 for x in lo_of.values() if x < t1)
            check(base + known <= n <= base + begun, "stale-snapshot",
                  f"{op} {n}: {base} + {known}..{begun}")
    if plan["kind"] in ("env_enum", "env_mixed"):
        env = reg.env
        known = json.loads(env.type_registry.describe())["mappings"]
        for name in wins:
            check(name in known, "not-exported", f"{name} {known}")
        if plan["metrics"]:
            check(env.get_metric("enum_count") == len(final), "wrong-count",
                  f"{env.get_metric('enum_count')} {len(final)}")
        check(env.enum_registry.export(env.type_registry) is True,
              "export", "a repeated export fails")
        maps = json.loads(env.enum_registry.describe())["global_mappings"]
        check(maps and -1 not in maps.values(), "export", f"{maps}")
    if plan["kind"] == "env_channel" and plan["metrics"]:
        check(reg.env.get_metric("channel_count") == len(final),
              "wrong-count", f"{len(final)}")
    # looking up something unknown changes nothing
    was = reg.describe(False), reg.count()
    for unknown in ("nosuchname", ""):
        check(reg.get_id(unknown) is None, "lookup-wrong", unknown)
    for num in (-1, len(final), 10 ** 6):
        check(reg.get_item(num) is None, "lookup-wrong", str(num))
    check((reg.describe(False), reg.count()) == was, "lookup-changes",
          f"{was}")
