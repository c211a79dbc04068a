"""Queues and pools (specs Queue and Pool)."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_barrier import UVMBarrier
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_event import UVMEvent
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_COUNT, UVM_WARNING
from uvm.base.uvm_pool import UVMPool, UVMObjectStringPool, UVMEventPool, UVMBarrierPool
from uvm.base.uvm_printer import UVMTablePrinter
from uvm.base.uvm_queue import UVMQueue


def warnings(id):
    return UVMCoreService.get().get_report_server().get_id_count(id)


def quiet():
    utest.quiet()
    utest.root().set_report_severity_action(UVM_WARNING, UVM_COUNT)


def opt(x):
    return x[0] if x else None


def queues(scn, ev):
    ev.append({"op": "cfg", "n": scn["n"]})
    quiet()
    qs = [UVMQueue("q%d" % i) for i in range(scn["n"])]
    for s in scn["h"]:
        d = s["do"]
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"] = d
        q = qs[s["k"] - 1]
        r = []
        try:
            if d in ("push_back", "push_front"):
                getattr(q, d)(s["v"])
            elif d in ("pop_back", "pop_front"):
                r = [getattr(q, d)()]
            elif d in ("front", "back"):
                r = getattr(q, d)()
                r = [] if r is None else [r]
            elif d == "get":
                w = warnings("QUEUEGET")
                r = [q.get(s["i"])]
                if warnings("QUEUEGET") > w:
                    r = ["warning"]
            elif d == "at":
                r = [q[s["i"]]]
            elif d == "set":
                q[s["i"]] = s["v"]
            elif d == "insert":
                w = warnings("QUEUEINS")
                q.insert(s["i"], s["v"])
                if warnings("QUEUEINS") > w:
                    r = ["warning"]
            elif d == "delete":
                w = warnings("QUEUEDEL")
                q.delete(*([] if s["i"] == -1 else [s["i"]]))
                if warnings("QUEUEDEL") > w:
                    r = ["warning"]
            elif d == "slice":
                r = list(q[opt(s["a"]):opt(s["b"])])
            elif d == "size":
                r = [q.size()]
                if len(q) != q.size():
                    r = ["len"]
            elif d == "iter":
                r = list(q)
            elif d == "find_with":
                r = list(q.find_with(lambda x: x == s["v"]).queue)
            elif d == "find_first":
                r = [q.find_first_index(lambda x: x == s["v"])]
            elif d == "copy":
                q.copy(qs[s["from"] - 1])
            elif d == "clone":
                qs.append(q.clone())
        except Exception:   # noqa: any exception is an error
            r = ["error"]
        e["r"] = r
        e["q"] = [list(x.queue) for x in qs]
        ev.append(e)


class Thing(UVMObject):
    def __init__(self, name="thing"):
        super().__init__(name)


POOLS = {"plain": lambda: UVMPool("p"), "make": lambda: UVMPool("p", list), "obj": lambda: UVMObjectStringPool("p", Thing)}


def pools(scn, ev):
    ev.append({"op": "cfg", "kinds": scn["kinds"]})
    quiet()
    ps = [POOLS[k]() for k in scn["kinds"]]
    kinds = list(scn["kinds"])
    made = []

    def val(v):
        if isinstance(v, int):
            return v
        for i, x in enumerate(made):
            if x is v:
                return 100 + i
        made.append(v)
        return 99 + len(made)

    def keys(x):
        return [] if x is None or x is False else [x]
    for s in scn["h"]:
        d = s["do"]
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"] = d
        if d == "global":
            A = {"plain": UVMPool, "obj": UVMObjectStringPool, "event": UVMEventPool, "barrier": UVMBarrierPool}[s["t"]]
            T = {"plain": None, "obj": UVMObject, "event": UVMEvent, "barrier": UVMBarrier}[s["t"]]
            g = A.get_global_pool()
            e["one"] = g is A.get_global_pool()
            e["kind"] = True
            if T is None:
                g.add("k", 7)
                e["kind"] = A.get_global("k") == 7
            else:
                x = A.get_global("k")
                e["kind"] = type(x) is T and x is g.get("k") and x.get_name() == "k"
            for o in (UVMPool, UVMObjectStringPool, UVMEventPool, UVMBarrierPool):
                e["one"] = e["one"] and (o is A or o.get_global_pool() is not g)
            ev.append(e)
            continue
        if d == "named":
            x = {"event": UVMEventPool, "barrier": UVMBarrierPool}[s["t"]]("n").get(s["key"])
            e["r"] = x.get_name() if type(x) is {"event": UVMEvent, "barrier": UVMBarrier}[s["t"]] else "type"
            ev.append(e)
            continue
        p = ps[s["k"] - 1]
        r = []
        try:
            if d == "add":
                p.add(s["key"], s["v"])
            elif d == "set":
                p[s["key"]] = s["v"]
            elif d == "get":
                n = len(made)
                x = p.get(s["key"])
                r = [] if x is None else [val(x)]
                if len(made) > n and kinds[s["k"] - 1] == "obj" and (type(x) is not Thing or x.get_name() != s["key"]):
                    r = ["kind"]
            elif d == "at":
                r = [val(p[s["key"]])]
            elif d == "delete":
                w = warnings("POOLDEL")
                p.delete(s["key"])
                if warnings("POOLDEL") > w:
                    r = ["warning"]
            elif d == "clear":
                p.delete()
            elif d == "exists":
                r = [p.exists(s["key"])]
            elif d == "in":
                r = [s["key"] in p]
            elif d == "num":
                r = [p.num()]
            elif d == "len":
                r = [len(p)]
            elif d == "iter":
                r = list(p)
            elif d in ("first", "last", "next", "prev"):
                r = keys(getattr(p, d)())
            elif d in ("has_first", "has_last", "has_next", "has_prev"):
                r = [getattr(p, d)()]
            elif d == "print":
                r = printed(p, kinds[s["k"] - 1], made)
            elif d == "copy":
                p.copy(ps[s["from"] - 1])
            elif d == "clone":
                q = p.clone()
                if type(q) is not type(p) or q is p:
                    r = ["type"]
                ps.append(q)
                kinds.append(kinds[s["k"] - 1])
        except IndexError:
            r = ["error"]
        e["r"] = r
        e["p"] = [{"keys": list(q.keys()), "v": [val(v) for v in q.pool.values()]} for q in ps]
        ev.append(e)


def printed(p, kind, made):
    """The values a printed pool shows, in the order of printing."""
    class Pr(UVMTablePrinter):
        def __init__(self):
            super().__init__()
            self.got = []

        def print_generic(self, name, type_name, size, value, scope_separator="."):
            self.got.append(int(value))

        def print_object(self, name, value, scope_separator="."):
            if value is p:
                return super().print_object(name, value, scope_separator)
            self.got.append(100 + [i for i, x in enumerate(made) if x is value][0])
    pr = Pr()
    p.sprint(pr)
    return pr.got


def qgen(h):
    for s in h:
        s.pop("op")
    return {"n": 1, "h": h + [{"do": d, "k": k} for k in range(1, 2 + sum(s["do"] == "clone" for s in h)) for d in ("size", "iter", "front", "back")]}


def pgen(g):
    for s in g["h"]:
        s.pop("op")
    n = 1 + sum(s["do"] == "clone" for s in g["h"])
    return {"kinds": [g["kind"]], "h": g["h"] + [{"do": d, "k": k} for k in range(1, n + 1) for d in ("has_next", "has_prev", "next", "iter", "first")]}


def qscn(rng, tier):
    for _ in range(500 if tier == "quick" else 9000):
        n = rng.randint(1, 3)
        h = []
        for _ in range(rng.randint(5, 50)):
            d = rng.choice(["push_back", "push_front", "push_back", "push_front", "insert", "pop_back", "pop_front", "delete", "set", "get",
                            "at", "slice", "slice", "size", "iter", "front", "back", "find_with", "find_first", "copy", "clone"])
            s = {"do": d, "k": rng.randint(1, n), "v": rng.randint(0, 3), "i": rng.randint(-2, 6)}
            if d == "delete" and rng.random() < .5:
                s["i"] = abs(s["i"])
            if d == "slice":
                s["a"], s["b"] = ([] if rng.random() < .3 else [rng.randint(-7, 7)] for _ in "ab")
            if d == "copy":
                s["from"] = rng.randint(1, n)
                if s["from"] == s["k"]:
                    continue
            if d == "clone":
                if n > 4:
                    continue
                n += 1
            h.append(s)
        yield {"n": n - sum(s["do"] == "clone" for s in h), "h": h}


def pscn(rng, tier):
    for _ in range(500 if tier == "quick" else 9000):
        kinds = [rng.choice(["plain", "make", "obj"]) for _ in range(rng.randint(1, 3))]
        n0 = len(kinds)
        h = []
        cut = False
        allk = rng.choice([["a", "b", "c", "d", "e"], ["a", "b"], ["", "x", "a.b"]])
        for _ in range(rng.randint(5, 50)):
            k = rng.randint(1, len(kinds))
            kd = kinds[k - 1]
            d = rng.choice(["add", "add", "set", "get", "get", "at", "delete", "clear", "exists", "in", "num", "len", "iter", "first", "last", "next",
                            "next", "next", "prev", "has_first", "has_last", "has_next", "has_prev", "print", "copy", "clone", "global", "named"])
            s = {"do": d, "k": k, "key": rng.choice(allk), "v": rng.randint(0, 9)}
            if d in ("add", "set") and kd == "obj" or d == "print" and kd == "make" or d == "clear" and (kd == "obj" or rng.random() < .6):
                continue
            if d == "global":
                s = {"do": d, "k": 1, "t": rng.choice(["plain", "obj", "event", "barrier"])}
            if d == "named":
                s = {"do": d, "k": 1, "t": rng.choice(["event", "barrier"]), "key": s["key"]}
            if d == "copy":
                s["from"] = rng.randint(1, len(kinds))
                if s["from"] == k or kinds[s["from"] - 1] != kd:
                    continue
            if d == "clone":
                if len(kinds) > 4:
                    continue
                kinds.append(kd)
            h.append(s)
        yield {"kinds": kinds[:n0], "h": h}


CHECKS = {"C16": Check(Part("Queue", queues, qscn, mc=["MC_Queue"], gen=qgen, gen_cap=(500, 9000)),
                       Part("Pool", pools, pscn, mc=["MC_Pool"], gen=pgen, gen_cap=(800, 9000)))}
