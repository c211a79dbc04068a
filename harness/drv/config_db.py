"""Configuration database (spec ConfigDb) inside a real test: sets and gets before, during and after build."""
from drv import utest
from registry import Part, Check
from vlib import S
import uvm
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import UVM_DEFAULT
from uvm.comps.uvm_agent import UVMAgent
from uvm.macros.uvm_object_defines import (uvm_component_utils_begin, uvm_component_utils_end, uvm_field_int,
                                           uvm_field_string)

FIELDS = ["fa", "fb", "tag", "is_active", "other"]


class CfgComp(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.fa = self.fb = -1
        self.tag = "-"

    def build_phase(self, phase):
        super().build_phase(phase)
        CfgComp.on_build(self)


uvm_component_utils_begin(CfgComp)
uvm_field_int('fa', UVM_DEFAULT)
uvm_field_int('fb', UVM_DEFAULT)
uvm_field_string('tag', UVM_DEFAULT)
uvm_component_utils_end(CfgComp)


class CfgAgent(UVMAgent):
    def build_phase(self, phase):
        self.is_active = -1
        super().build_phase(phase)
        CfgComp.on_build(self)


def execute(scn, ev):
    ch = {}
    ids = {None: 0}
    comps = []

    def st(s):
        ch[s] = list(s)
        return s

    def full(c, inst):
        n = c.get_full_name() if c is not None else ""
        st(n if inst == "" else inst if n == "" else n + "." + inst)
        return n

    def val(f, v):
        return ("s%d" % v) if f in ("tag", "other") else v

    def do(a, me):
        c = me
        if a.get("ctx") == "none" or me is None:
            c = None
        elif a.get("ctx") == "top":
            c = utest.root()
        elif a.get("ctx") == "parent" and me.get_parent() is not None:
            c = me.get_parent()
        elif isinstance(a.get("ctx"), int) and comps:
            c = comps[a["ctx"] % len(comps)]
        k = 0 if c is None or c is utest.root() else ids.setdefault(c, len(ids))
        n = full(c, a["inst"])
        if a["do"] == "set":
            depth = 0 if n == "" else n.count(".") + 1
            v = val(a["f"], a["v"])
            ev.append({"op": "set", "k": k, "ctx": n, "depth": depth, "inst": a["inst"], "f": a["f"], "v": S(v)})
            UVMConfigDb.set(c, a["inst"], a["f"], v)
        elif a["do"] == "get":
            arr = []
            ok = UVMConfigDb.get(c, a["inst"], a["f"], arr)
            ev.append({"op": "get", "ctx": n, "inst": a["inst"], "f": a["f"], "ok": ok,
                       "v": S(arr[0]) if len(arr) == 1 else "-" if not arr else "many"})
        elif a["do"] == "exists":
            ev.append({"op": "exists", "ctx": n, "inst": a["inst"], "f": a["f"],
                       "ok": bool(UVMConfigDb.exists(c, a["inst"], a["f"]))})

    def on_build(c):
        comps.append(c)
        p = st(c.get_full_name())
        if isinstance(c, CfgAgent):
            ev.append({"op": "field", "path": p, "f": "is_active", "v": "-" if c.is_active == -1 else S(c.is_active)})
        else:
            for f in ("fa", "fb", "tag"):
                v = getattr(c, f)
                ev.append({"op": "field", "path": p, "f": f, "v": "-" if v == -1 else S(v)})
        node(c, scn["tree"].get(p, {}))

    def node(c, d):
        for a in d.get("acts", []):
            do(a, c)
        for name, kind in d.get("kids", []):
            (CfgAgent if kind == "agent" else CfgComp)(name, c)
        for a in d.get("acts2", []):
            do(a, c)
    CfgComp.on_build = staticmethod(on_build)

    def test_build(t):
        ev.append({"op": "phase", "b": True})
        comps.append(t)
        st(t.get_full_name())
        node(t, scn["tree"].get("uvm_test_top", {}))

    async def run(t, phase):
        from cocotb.triggers import Timer
        ev.append({"op": "phase", "b": False})
        for a in scn["run"]:
            do(a, t)
            if a.get("wait"):
                await Timer(1, "NS")

    def pre():
        for a in scn["pre"]:
            do(a, None)
    ev.append({"op": "cfg", "ch": ch})
    st("")
    utest.run({"build": test_build, "run": run}, ev, seed=scn["seed"], pre=pre)


TREE = {"uvm_test_top": [("env", "c"), ("e2", "c")], "uvm_test_top.env": [("agt", "agent"), ("drv", "c"), ("drv1", "c")],
        "uvm_test_top.e2": [("drv", "c")], "uvm_test_top.env.agt": [("mon", "c")]}


def scenarios(rng, tier):
    paths = ["uvm_test_top"] + [p + "." + k for p in TREE for k, _ in TREE[p]]
    rel = ["", "env", "env.drv", "e2.drv", "drv", "agt", "agt.mon", "mon", "drv1", "*", "*.drv", "env.*", "env.*drv*", "*drv?",
           "env.???", "drv?", "/drv$/", "/env/", "/^uvm_test_top\\.env/", "/.*mon/", "e*.drv", "*a*"]
    for _ in range(600 if tier == "quick" else 9000):
        nf = rng.choice([1, 1, 2, 5])
        fs = rng.sample(FIELDS, nf)
        cnt = [1]
        few = rng.sample(rel, rng.choice([2, 4, 8])) + [""]

        def act(kind=None, ctxs=(0,)):
            k = kind or rng.choice(["set", "set", "set", "get", "get", "exists"])
            inst = rng.choice(few)
            if k != "set" and rng.random() < .7:
                inst = rng.choice(["", "env", "drv", "env.drv", "e2.drv", "agt", "agt.mon", "nosuch"])
            elif k != "set":
                inst = rng.choice([x for x in few if "/" not in x and "*" not in x and "?" not in x])
            a = {"do": k, "inst": inst, "f": rng.choice(fs), "ctx": rng.choice(["me", "me", "me", "none", "top", "parent", 0, 1, 2, 3])}
            if k == "set":
                cnt[0] += 1
                a["v"] = cnt[0]
                if cnt[0] > 3 and rng.random() < .15:
                    a["v"] = rng.randint(2, cnt[0])
            elif rng.random() < .5:
                a["ctx"] = "none"
                a["inst"] = rng.choice(paths)
            return a
        dens = rng.choice([1, 2, 4])
        tree = {}
        for p in ["uvm_test_top"] + paths[1:]:
            tree[p] = {"kids": TREE.get(p, []),
                       "acts": [act() for _ in range(rng.randint(0, dens))],
                       "acts2": [act() for _ in range(rng.randint(0, dens))]}
        run = [act() for _ in range(rng.randint(0, 8))] + [
            {"do": "get", "inst": p, "f": f, "ctx": "none"} for f in fs for p in rng.sample(paths, 3)]
        yield {"seed": rng.randrange(1 << 30), "pre": [act() for _ in range(rng.randint(0, 3))], "tree": tree, "run": run}


def gen(h):
    """h: list of {do, at, ctx, inst, f, v}; at: pre / a path / run."""
    tree = {p: {"kids": TREE.get(p, []), "acts": [], "acts2": []} for p in
            ["uvm_test_top"] + [p + "." + k for p in TREE for k, _ in TREE[p]]}
    s = {"seed": 1, "pre": [], "run": [], "tree": tree}
    for a in h:
        a = dict(a)
        at = a.pop("at")
        if at == "pre":
            s["pre"].append(a)
        elif at == "run":
            s["run"].append(a)
        else:
            tree[at]["acts"].append(a)
    s["run"] += [{"do": "get", "inst": p, "f": "fa", "ctx": "none"} for p in ("uvm_test_top.env", "uvm_test_top.env.drv", "uvm_test_top.e2.drv")]
    return s


CHECKS = {"C17": Check(Part("ConfigDb", execute, scenarios, mc=["MC_ConfigDb"], gen=gen, gen_cap=(500, 6000)))}
