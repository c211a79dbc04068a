"""Schedules built by every kind of insertion, queried, and executed (spec PhaseGraph)."""
import fakesim
from cocotb.triggers import Timer
from registry import Part, Check
from drv import utest
import uvm
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_task_phase import UVMTaskPhase
from uvm.base.uvm_common_phases import UVMRunPhase
from uvm.base.uvm_object_globals import UVM_PHASE_SCHEDULE
from uvm.comps.uvm_test import UVMTest
from uvm.macros.uvm_object_defines import uvm_component_utils

W = {}


class Imp(UVMTaskPhase):
    async def exec_task(self, comp, phase):
        W["ev"].append({"op": "begin", "x": self.get_name()})
        d = W["dur"].get(self.get_name(), 0)
        if d:
            phase.raise_objection(comp)
            await Timer(d, "ns")
            phase.drop_objection(comp)


class GTest(UVMTest):
    def __init__(self, name="GTest", parent=None):
        UVMTest.__init__(self, name, parent)
        self.set_domain(W["dom"])

    def define_domain(self, domain):
        pass

    def phase_ended(self, phase):
        if phase.m_imp.__class__ is Imp:
            W["ev"].append({"op": "finish", "x": phase.get_name()})


uvm_component_utils(GTest)


def execute(scn, ev):
    ev.append({"op": "cfg"})
    W.clear()
    nodes, imps, root = {}, {}, scn["root"]

    def sched(x):
        nodes[x] = UVMDomain(x) if x == root else UVMPhase(x, UVM_PHASE_SCHEDULE)
        nodes[x + " end"] = nodes[x].m_end_node
        ev.append({"op": "sched", "x": x})
    for x in scn["scheds"]:
        sched(x)

    def succ(n):
        return n.m_successors.keys()

    def all_of(n, seen):
        if n not in seen:
            seen.append(n)
            for s in succ(n):
                all_of(s, seen)
        return seen

    def target(x, how):
        if not x:
            return None
        return imps[x] if how and x in imps else nodes[x]
    for s in scn["adds"]:
        if s["x"] not in nodes:
            imps[s["x"]] = Imp(s["x"])
        kw = {k + ("_phase"): target(s[k], s.get("imp")) for k in ("with", "after", "before") if s[k]}
        e = {k: s[k] for k in ("x", "to", "with", "after", "before")}
        ev.append(dict(e, op="add"))
        nodes[s["to"]].add(imps.get(s["x"]) or nodes[s["x"]], **kw)
        if s["x"] in imps:
            found = [n for n in all_of(nodes[s["to"]], []) if n.m_imp is imps[s["x"]]]
            if not found:
                ev.append({"op": "crash", "what": "node not inserted"})
                return
            nodes[s["x"]] = found[0]
    names = list(nodes)
    for x, y, how in scn["queries"] or [(x, y, h) for x in names for y in names for h in ("before", "after")]:
        if x not in nodes or y not in nodes:
            continue
        if how == "before":
            ev.append({"op": "before", "x": x, "y": y, "res": bool(nodes[x].is_before(nodes[y]))})
        elif how == "after":
            ev.append({"op": "after", "x": x, "y": y, "res": bool(nodes[x].is_after(nodes[y]))})
        elif how == "impbefore" and y in imps:
            ev.append({"op": "before", "x": x, "y": y, "res": bool(nodes[x].is_before(imps[y]))})
        elif how == "impafter" and y in imps:
            ev.append({"op": "after", "x": x, "y": y, "res": bool(nodes[x].is_after(imps[y]))})
        elif how == "find" and x != y and y in imps:
            ev.append({"op": "find", "x": x, "y": y, "ok": nodes[x].find(imps[y]) is nodes[y]})
        elif how == "name" and y not in scn["scheds"] and not y.endswith(" end"):
            ev.append({"op": "find", "x": x, "y": y, "ok": nodes[x].find_by_name(y) is nodes[y]})
    if scn["run"]:
        W.update(ev=ev, dur=scn["dur"], dom=nodes[root])

        async def main():
            utest.quiet()
            UVMDomain.get_common_domain().add(nodes[root], with_phase=UVMRunPhase.get())
            await uvm.run_test("GTest")
        st, v, _ = fakesim.run(main, seed=scn["seed"])
        if st == "exc":
            raise v
        if st != "ok":
            ev.append({"op": "hang"})
    ev.append({"op": "end", "ran": bool(scn["run"])})


class G:
    """What the generator needs to know: the order so far (only to choose legal insertions)."""

    def __init__(self):
        self.e, self.s = set(), set()

    def close(self, x):
        seen, todo = set(), [x]
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo += [b for a, b in self.e if a == n]
        return seen

    def end(self, x):
        return x + " end" if x in self.s else x

    def sched(self, x):
        self.s.add(x)
        self.e.add((x, x + " end"))

    def add(self, x, to, w, a, b):
        n = self.end(x)
        if not (w or a or b):
            b = self.end(to)
        if a and a != to:
            a = self.end(a)
        if w:
            self.e |= {(p, x) for p, q in self.e if q == w} | {(n, s) for q, s in self.e if q == self.end(w)}
        elif not a:
            pr = {(p, q) for p, q in self.e if q == b}
            self.e = (self.e - pr) | {(p, x) for p, q in pr} | {(n, b)}
        elif not b:
            su = {(p, q) for p, q in self.e if p == a}
            self.e = (self.e - su) | {(n, q) for p, q in su} | {(a, x)}
        else:
            self.e = (self.e - {(a, b)}) | {(a, x), (n, b)}


def gen(h):
    adds = [{"x": "q", "to": "S", "with": "", "after": "", "before": ""}] + [dict(x) for x in h]
    k = hash(str(h))
    for i, a in enumerate(adds):
        a["imp"] = (k >> i) & 1
    used = any(a["x"] == "S" for a in adds)
    return {"root": "R", "scheds": ["R", "S"], "adds": adds if used else adds[1:], "queries": [], "run": k % 3 == 0 and used,
            "dur": {"a": 2, "b": 1, "c": 3}, "seed": k % 1000}


def scenarios(rng, tier):
    for k in range(400 if tier == "quick" else 8000):
        ns = rng.choice([0, 0, 1, 2])
        scheds = ["R"] + ["S%d" % i for i in range(ns)]
        g = G()
        for s in scheds:
            g.sched(s)
        into = {"R": []}
        adds = []
        pend = scheds[1:]
        for s in pend:
            into[s] = []
        n = 0
        placed = {"R"}
        for _ in range(rng.randint(2, 9)):
            if pend and rng.random() < .3:
                x = pend.pop()
                to = "R"
                placed.add(x)
            else:
                x = "p%d" % n
                n += 1
                to = rng.choice(scheds)
            inside = into[to]
            w = a = b = ""
            r = rng.random()
            if inside and r < .75:
                y = rng.choice(inside)
                if r < .25:
                    w = y
                elif r < .45:
                    a = y
                elif r < .6:
                    b = y
                else:
                    zs = [z for z in inside if z != y and z in g.close(g.end(y))]
                    if zs:
                        a, b = y, rng.choice(zs)
            elif r > .9 and inside:
                a = to
            g.add(x, to, w, a, b)
            inside.append(x)
            adds.append({"x": x, "to": to, "with": w, "after": a, "before": b, "imp": rng.random() < .5 and to == "R"})
        names = ["R", "R end"] + [a["x"] for a in adds] + [s + " end" for s in scheds]
        qs = [(rng.choice(names), rng.choice(names), rng.choice(["before", "after", "impbefore", "impafter", "find", "name"])) for _ in range(40)]
        yield {"root": "R", "scheds": scheds, "adds": adds, "queries": qs, "run": not pend and rng.random() < .4,
               "dur": {a["x"]: rng.choice([0, 0, 1, 2, 5]) for a in adds}, "seed": rng.randrange(10 ** 6)}


CHECKS = {"C05": Check(Part("PhaseGraph", execute, scenarios, mc=["MC_PhaseGraph"], gen=gen, gen_cap=(500, 9000)))}
