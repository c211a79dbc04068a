"""In-order and algorithmic comparators (spec Comparator)."""
from cocotb.triggers import Timer, NullTrigger
from drv import utest
from drv.utest import now
from registry import Part, Check
from uvm.base.uvm_comparer import UVMComparer
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_INFO
from uvm.comps.uvm_in_order_comparator import UVMInOrderComparator, UVMInOrderBuiltInComparator, UVMInOrderClassComparator
from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
from uvm.base.uvm_component import UVMComponent
from uvm.macros import uvm_object_utils, uvm_component_utils
from uvm.tlm1 import UVMAnalysisImp, UVMAnalysisPort

# contents of items of built-in types: different contents have different values
VALS = [0, 1, "", "x", [], [0], (1, 2), {"k": 1}, 2.5, -7, "differs", {}]


class Txn(UVMObject):
    def __init__(self, name="txn"):
        super().__init__(name)
        self.v = self.i = 0

    def do_compare(self, rhs, comparer):
        return self.v == rhs.v

    def do_copy(self, rhs):
        self.v = rhs.v

    def convert2string(self):
        return "v=%d" % self.v


uvm_object_utils(Txn)


class PolicyComp:
    """A user's policy that answers as a bit."""
    @classmethod
    def comp(cls, a, b):
        return 1 if a == b else 0


class Sub(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.imp = UVMAnalysisImp("imp", self)
        self.fn = None

    def write(self, t):
        self.fn(t)


uvm_component_utils(Sub)


class Plus:
    def __init__(self, k, n):
        self.k, self.n = k, n

    def transform(self, t):
        r = Txn("transformed")
        r.v = (t.v + self.k) % self.n
        return r


def execute(scn, ev):
    kind = scn["kind"]
    ev.append({"op": "cfg", "kind": kind, "k": scn.get("k", 1), "n": scn["n"]})
    ids, made = {}, []
    box = {}

    def item(i, v):
        if kind in ("builtin", "policy"):
            return VALS[v]
        t = Txn("t%d" % i)
        t.v = v
        ids[id(t)] = i
        made.append(t)
        return t

    def val(x):
        return x.v if isinstance(x, Txn) else next(i for i, y in enumerate(VALS) if type(y) is type(x) and y == x)

    def ident(x):
        return ids.get(id(x), -1)

    def build(t):
        if kind == "builtin":
            c = scn.get("base") and UVMInOrderComparator("c", t) or UVMInOrderBuiltInComparator("c", t)
        elif kind == "policy":
            c = UVMInOrderComparator("c", t)
            c.CompType = PolicyComp
        elif kind == "class":
            c = UVMInOrderClassComparator("c", t)
        else:
            c = UVMAlgorithmicComparator("c", t, Plus(scn.get("k", 1), scn["n"]))
        inner = c.comp if kind == "alg" else c
        sub = Sub("sub", t)
        ports = [UVMAnalysisPort("pb", t), UVMAnalysisPort("pa", t)]
        box.update(c=c, inner=inner, sub=sub, ports=ports, feed=list(scn.get("feed", [])), n={"a": 0, "b": 0})

        def connect(phase):
            inner.pair_ap.connect(sub.imp)
            ports[0].connect(c.before_export)
            ports[1].connect(c.after_export)
        t.connect_phase = connect
        sub.fn = pair
        box["err0"] = utest.errors()

    def counters():
        return {"m": box["inner"].m_matches, "mm": box["inner"].m_mismatches}

    def send(s):
        d = s["do"]
        i = box["n"][d]
        box["n"][d] += 1
        x = item(i, s["v"])
        ev.append({"op": d, "t": now(), "i": i if ident(x) >= 0 else -1, "v": s["v"]})
        if s.get("port"):
            box["ports"][d == "a"].write(x)
        else:
            (box["c"].before_export if d == "b" else box["c"].after_export).write(x)

    def quiet():
        c = UVMComparer()
        c.show_max = 0
        c.sev = UVM_INFO
        return c

    def pair(p):
        e = {"op": "pair", "t": now(), **counters()}
        e.update(fv=val(p.first), fi=ident(p.first), sv=val(p.second), si=ident(p.second))
        p.convert2string()
        c = p.clone()
        e["cl"] = [val(c.first), val(c.second)]
        e["same"] = bool(p.compare(box["prev"], quiet())) if box.get("prev") else False
        box["prev"] = p
        ev.append(e)
        if box["feed"]:
            send(box["feed"].pop(0))

    async def main(t, phase):
        for s in scn["h"]:
            d = s["do"]
            if d in ("a", "b"):
                send(s)
            elif d == "flush":
                ev.append({"op": "flush", "t": now()})
                box["inner"].flush()
            elif d == "tick":
                await Timer(s["n"], "NS")
                ev.append({"op": "obs", "t": now(), **counters(), "err": utest.errors() - box["err0"]})
            elif d == "delta":
                for _ in range(s["n"]):
                    await NullTrigger()
        await Timer(5, "NS")
        ev.append({"op": "obs", "t": now(), **counters(), "err": utest.errors() - box["err0"]})
    utest.run({"build": build, "run": main}, ev, seed=scn["seed"])


def gen(g):
    """The comparator compares by itself: the order of the model's steps is kept by waiting where it does."""
    h = []
    for s in g[1:]:
        if s["do"] == "pair":
            h.append({"do": "delta", "n": 6})
        else:
            h.append({k: v for k, v in s.items() if k in ("do", "v")})
    return {"kind": g[0]["kind"], "n": 2, "k": 1, "h": h, "seed": 1}


def scenarios(rng, tier):
    for _ in range(400 if tier == "quick" else 8000):
        kind = rng.choice(["builtin", "policy", "class", "alg"])
        n = rng.choice([2, 3, 6, len(VALS)])
        pool = [rng.randrange(n) for _ in range(rng.choice([1, 2, 12]))]
        h = []
        bias = rng.choice([1, 3, .3])
        prog, pos = [rng.choice(pool) for _ in range(60)], {"a": 0, "b": 0}
        k = rng.randrange(n)
        for _ in range(rng.randint(3, 40)):
            d = rng.choices(["b", "a", "tick", "delta", "flush"], [4 * bias, 4, 1.5, 2, .4])[0]
            s = {"do": d, "n": rng.randint(1, 3), "port": rng.random() < .5}
            if d in "ab":
                # mostly the same contents on both streams
                s["v"] = prog[pos[d]] if rng.random() < .8 else rng.choice(pool)
                if kind == "alg" and d == "a" and rng.random() < .9:
                    s["v"] = (s["v"] + k) % n
                pos[d] += 1
            h.append(s)
        feed = [{"do": rng.choice("ab"), "v": rng.choice(pool)} for _ in range(rng.choice([0, 0, 0, 1, 3]))]
        yield {"kind": kind, "n": n, "k": k, "h": h, "feed": feed, "base": rng.random() < .3, "seed": rng.getrandbits(30)}


CHECKS = {"C35": Check(Part("Comparator", execute, scenarios, mc=["MC_Comparator"], gen=gen, gen_cap=(350, 8000)))}
