"""Callbacks (spec Callbacks)."""
import fakesim  # noqa: F401
from drv import utest
from registry import Part, Check
from uvm.base.uvm_callback import UVMCallback, UVMCallbacks, UVMCallbacksBase, UVMCallbackIter
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_INFO, UVM_WARNING, UVM_NO_ACTION, UVM_COUNT
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
from uvm.macros.uvm_callback_defines import (uvm_do_callbacks, uvm_do_callbacks_exit_on, uvm_do_callbacks_async,
                                             uvm_register_cb)
from uvm.base.uvm_component import UVMComponent


class Base(UVMCallback):
    idx = 0
    ret = 0
    log = None
    sw = ()

    def fun(self, x):
        sw = []
        for c, on in self.sw:
            if c is not None:
                c.callback_mode(on)
                sw.append({"c": c.idx, "on": on == 1})
        Base.log.append({"c": self.idx, "sw": sw, "x": x})
        return self.ret

    async def afun(self, x):
        return self.fun(x)


class A(Base):
    pass


class AA(A):
    pass


class B(Base):
    pass


class Obj(UVMObject):
    pass


class Comp(UVMComponent):
    pass


uvm_register_cb(Obj, A)
uvm_register_cb(Comp, B)
TYPES = {"A": A, "B": B, "AA": AA, "": None}


def execute(scn, ev):
    tys = scn["tys"]
    cbs = []
    for i, t in enumerate(tys):
        c = TYPES[t]("cb%d" % i)
        c.idx, c.ret = i + 1, scn["ret"][i]
        cbs.append(c)
    ev.append({"op": "cfg", "n": len(scn["objs"]), "ret": scn["ret"],
               "ty": [[k for k in ("A", "B", "AA") if isinstance(c, TYPES[k])] for c in cbs]})
    UVMCallbacksBase.m_tracing = scn.get("trace", False)
    root = utest.root()
    for r in (root, UVMCallbacks.reporter):
        r.set_report_severity_action(UVM_INFO, UVM_NO_ACTION)
        r.set_report_severity_action(UVM_WARNING, UVM_COUNT)
    srv = UVMCoreService.get().get_report_server()
    objs = [Comp("o%d" % i, None) if k == "comp" else Obj("o%d" % i) for i, k in enumerate(scn["objs"])]

    def ob(o):
        return objs[o - 1] if o else None

    def calls():
        return [{"c": w["c"], "sw": w["sw"]} for w in Base.log]

    for k, s in enumerate(scn["steps"]):
        d = s["do"]
        if d == "add":
            n = srv.get_severity_count(UVM_WARNING)
            c = cbs[s["c"] - 1]
            if s["pre"] is None:
                UVMCallbacks.add(ob(s["o"]), c)
            else:
                UVMCallbacks.add(ob(s["o"]), c, UVM_PREPEND if s["pre"] else UVM_APPEND)
            ev.append({"op": "add", "o": s["o"], "c": s["c"], "pre": bool(s["pre"]),
                       "warn": srv.get_severity_count(UVM_WARNING) > n})
        elif d == "mode":
            old = cbs[s["c"] - 1].callback_mode(s["on"]) if s["on"] >= 0 else cbs[s["c"] - 1].is_enabled()
            ev.append({"op": "mode", "c": s["c"], "on": s["on"], "old": bool(old)})
        elif d == "call":
            for c in cbs:
                c.sw = ()
            for c, t, on in s.get("sw", []):
                cbs[c - 1].sw = [(cbs[t - 1], on)]
            Base.log = []
            if s.get("asy"):
                co = uvm_do_callbacks_async(ob(s["o"]), TYPES[s["ty"]], "afun", k)
                try:
                    co.send(None)
                    raise Exception("uvm_do_callbacks_async did not return")
                except StopIteration:
                    pass
            else:
                uvm_do_callbacks(ob(s["o"]), TYPES[s["ty"]], "fun", k)
            assert all(w["x"] == k for w in Base.log)
            ev.append({"op": "call", "o": s["o"], "ty": s["ty"], "who": calls()})
            for c in cbs:
                c.sw = ()
        elif d == "exit":
            Base.log = []
            r = uvm_do_callbacks_exit_on(ob(s["o"]), TYPES[s["ty"]], "fun", s["val"], k)
            ev.append({"op": "exit", "o": s["o"], "ty": s["ty"], "val": s["val"], "who": [w["c"] for w in Base.log],
                       "ret": int(r)})
        elif d == "walk":
            e = {"op": "walk", "o": s["o"], "ty": s["ty"]}
            for key, f, n in (("fwd", "first", "next"), ("bwd", "last", "prev")):
                it = UVMCallbackIter(ob(s["o"]), TYPES[s["ty"]])
                x = getattr(it, f)()
                e[key] = []
                while x is not None and len(e[key]) < 50:
                    assert it.get_cb() is x
                    e[key].append(x.idx)
                    x = getattr(it, n)()
            ev.append(e)


def gen(h):
    steps = [dict(do=s["op"], **{k: v for k, v in s.items() if k != "op"}) for s in h]
    for o in (1, 2):
        for ty in ("A", "B", "AA"):
            steps.append({"do": "call", "o": o, "ty": ty})
        steps.append({"do": "walk", "o": o, "ty": ""})
    return {"tys": ["A", "B", "AA"], "ret": [0, 1, 1], "objs": ["obj", "comp"], "steps": steps}


def scenarios(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        nc, no = rng.randint(1, 6), rng.randint(1, 4)
        steps = []
        for _ in range(rng.randint(3, 40)):
            d = rng.choices(["add", "mode", "call", "exit", "walk"], [6, 2, 4, 2, 2])[0]
            o = rng.randint(1, no)
            c = rng.randint(1, nc)
            if d == "add":
                steps.append({"do": d, "o": 0 if rng.random() < .3 else o, "c": c, "pre": rng.choice([True, False, None])})
            elif d == "mode":
                steps.append({"do": d, "c": c, "on": rng.choice([0, 1, -1])})
            else:
                s = {"do": d, "o": o, "ty": rng.choice(["A", "B", "AA"] + [""] * (d == "walk")), "val": rng.choice([0, 1]),
                     "asy": rng.random() < .3}
                if rng.random() < .3:
                    s["sw"] = [(rng.randint(1, nc), rng.randint(1, nc), rng.choice([0, 1])) for _ in range(rng.randint(1, 3))]
                if d == "walk" and rng.random() < .3:
                    s["o"] = 0
                steps.append(s)
        yield {"trace": rng.random() < .1, "tys": [rng.choice(["A", "B", "AA"]) for _ in range(nc)], "ret": [rng.choice([0, 1]) for _ in range(nc)],
               "objs": [rng.choice(["obj", "comp"]) for _ in range(no)], "steps": steps}


CHECKS = {"C20": Check(Part("Callbacks", execute, scenarios, mc=["MC_Callbacks"], gen=gen, gen_cap=(3000, 30000)))}
