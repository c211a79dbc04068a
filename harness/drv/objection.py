"""Objections (spec Objection)."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger
from registry import Part, Check
import uvm
from uvm.base.uvm_objection import UVMObjection, UVMObjectionCallback
from uvm.base.uvm_callback import UVMCallbacks
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import (UVM_RAISED, UVM_DROPPED, UVM_ALL_DROPPED, UVM_FATAL, UVM_WARNING, UVM_NO_ACTION,
    UVM_COUNT, UVM_INFO)

KINDS = {"raised": UVM_RAISED, "dropped": UVM_DROPPED, "all_dropped": UVM_ALL_DROPPED}


def execute(scn, ev):
    top = UVMCoreService.get().get_root()
    srv = UVMCoreService.get().get_report_server()
    top.set_report_severity_action(UVM_FATAL, UVM_COUNT)
    top.set_report_severity_action(UVM_WARNING, UVM_NO_ACTION)
    top.set_report_severity_action(UVM_INFO, UVM_NO_ACTION)
    par, hd, drain = scn["par"], scn["hd"], scn["drain"]
    n = len(par)
    objs = [None, top]
    nest = []       # the notification list of the call in progress
    sim = {}

    def ix(o):
        for i in range(1, n + 1):
            if objs[i] is o:
                return i
        return 0

    def now():
        from cocotb.utils import get_sim_time
        return int(get_sim_time("step"))

    def note(k, o, s, c):
        r = {"k": k, "o": ix(o), "s": ix(s), "c": c if isinstance(c, int) else -1}
        if nest:
            nest[-1].append(r)
        else:
            ev.append(dict(r, op="ahook", t=now()))

    class Comp(UVMComponent):
        def raised(self, objection, source_obj, description, count):
            if objection is not sim["ob"]:
                return
            note("c_raised", self, source_obj, count)

        def dropped(self, objection, source_obj, description, count):
            if objection is not sim["ob"]:
                return
            note("c_dropped", self, source_obj, count)

        async def all_dropped(self, objection, source_obj, description, count):
            if objection is not sim["ob"]:
                return
            note("c_all_dropped", self, source_obj, count)
            i = ix(self)
            if hd[i - 1]:
                await Timer(hd[i - 1], "step")
            elif scn.get("reraise") == i and not sim.get("rr"):
                sim["rr"] = 1
                call("raise", i, 1)

    class Obj(UVMObjection):
        def raised(self, obj, source_obj, description, count):
            note("raised", obj, source_obj, count)
            super().raised(obj, source_obj, description, count)

        def dropped(self, obj, source_obj, description, count):
            note("dropped", obj, source_obj, count)
            super().dropped(obj, source_obj, description, count)

        async def all_dropped(self, obj, source_obj, description, count):
            note("all_dropped", obj, source_obj, count)
            await super().all_dropped(obj, source_obj, description, count)

    class CB(UVMObjectionCallback):
        def raised(self, objection, obj, source_obj, description, count):
            note("b_raised", obj, source_obj, count)

        def dropped(self, objection, obj, source_obj, description, count):
            note("b_dropped", obj, source_obj, count)

        async def all_dropped(self, objection, obj, source_obj, description, count):
            note("b_all_dropped", obj, source_obj, count)

    for i in range(2, n + 1):
        objs.append(Comp("c%d" % i, None if par[i - 1] == 1 else objs[par[i - 1]]))

    def call(m, o, c, ob=None):
        ob = ob or sim["ob"]
        nest.append([])
        f0 = srv.get_severity_count(UVM_FATAL)
        a = None if (o == 1 and scn.get("none_top")) else objs[o]
        if m == "raise":
            ob.raise_objection(a, "d", c)
        else:
            ob.drop_objection(a, "d", c)
        h = nest.pop()
        if ob is sim["ob"]:
            ev.append({"op": m, "t": now(), "o": o, "c": c, "hooks": h,
                       "fatal": srv.get_severity_count(UVM_FATAL) > f0})

    async def main():
        ob = sim["ob"] = Obj("ob")
        if scn.get("cb"):
            UVMCallbacks.add(ob, UVMObjectionCallback("idle"))
            UVMCallbacks.add(ob, CB("cb"))
        other = UVMObjection("other")
        if scn.get("trace"):
            ob.trace_mode(1)
            top.set_report_severity_action(UVM_INFO, UVM_COUNT)
        if scn.get("direct_start", True):
            await UVMObjection.m_init_objections()
        for i in range(1, n + 1):
            if drain[i - 1]:
                ob.set_drain_time(objs[i], drain[i - 1])
        nw = 0

        async def waiter(w, k, o):
            ev.append({"op": "wcall", "t": now(), "w": w, "k": k, "o": o})
            await ob.wait_for(KINDS[k], objs[o])
            ev.append({"op": "wret", "t": now(), "w": w})

        def obs():
            ev.append({"op": "obs", "t": now(), "cnt": [ob.get_objection_count(x) for x in objs[1:]],
                       "tot": [ob.get_objection_total(x) for x in objs[1:]]})

        for s in scn["steps"]:
            d = s["do"]
            if d == "tick":
                await Timer(s.get("n", 1), "step")
                obs()
            elif d == "delta":
                for _ in range(s.get("n", 1)):
                    await NullTrigger()
            elif d in ("raise", "drop"):
                call(d, s["o"], s["c"])
            elif d == "other":
                sim["x"] = 1
                ob2 = other
                if s["m"] == "raise":
                    ob2.raise_objection(objs[s["o"]], "", 1)
                elif ob2.get_objection_count(objs[s["o"]]) > 0:
                    ob2.drop_objection(objs[s["o"]], "", 1)
            elif d == "clear":
                ob.clear()
                ev.append({"op": "clear", "t": now()})
            elif d == "wait":
                nw += 1
                await cocotb.start(waiter(nw, s["k"], s["o"]))
            elif d == "set_drain":
                ob.set_drain_time(objs[s["o"]], s["d"])
                ev.append({"op": "set_drain", "t": now(), "o": s["o"], "d": s["d"]})
            elif d == "obs":
                obs()
        await Timer(1000, "step")
        obs()
        ev.append({"op": "end", "t": now()})

    ev.append({"op": "cfg", "par": par, "prop": True, "hd": hd, "drain": drain, "cb": bool(scn.get("cb")),
               "comp": [i != 0 for i in range(n)]})
    import fakesim as fs
    st, v, s = fs.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def gen(h):
    c = h[0]
    n = len(c["par"])
    k = hash(str(h))
    steps = []
    for i, s in enumerate(h[1:]):
        steps.append(s)
        if (k >> i) & 1 and s["do"] != "tick":
            steps.append({"do": "delta", "n": 1 + (k >> (2 * i)) % 6})
    return {"par": c["par"], "drain": c["drain"], "hd": [0] * n, "seed": k & 0xffff, "steps": steps,
            "trace": k % 11 == 0, "cb": k % 3 == 0}


def scenarios(rng, tier):
    for _ in range(500 if tier == "quick" else 8000):
        n = rng.randint(2, 7)
        par = [0] + [rng.randint(1, i) for i in range(1, n)]
        dr = rng.choice([[0], [0, 0, 1, 2], [1, 2, 3, 5]])
        drain = [rng.choice(dr) for _ in range(n)]
        hd = [0] + [rng.choice([0, 0, 0, 1, 3]) if rng.random() < .5 else 0 for _ in range(n - 1)]
        src = {}
        steps = []
        pbad = rng.choice([0, 0, .1])
        maxt = rng.choice([1, 2, 4])
        for _ in range(rng.randint(4, 40)):
            r = rng.random()
            if r < .28:
                o = rng.randint(1, n)
                c = rng.choice([1, 1, 1, 2, 3, 0])
                src[o] = src.get(o, 0) + c
                steps.append({"do": "raise", "o": o, "c": c})
            elif r < .62:
                lv = [o for o in src if src[o] > 0]
                if rng.random() < pbad:
                    o, c = rng.randint(1, n), rng.randint(0, 3)
                    if src.get(o, 0) >= c:
                        src[o] = src.get(o, 0) - c
                elif lv:
                    o = rng.choice(lv)
                    c = src[o] if rng.random() < .6 else rng.randint(1, src[o])
                    src[o] -= c
                else:
                    continue
                steps.append({"do": "drop", "o": o, "c": c})
            elif r < .80:
                steps.append({"do": "tick", "n": rng.randint(1, maxt)})
            elif r < .90:
                steps.append({"do": "delta", "n": rng.randint(1, 6)})
            elif r < .93:
                steps.append({"do": "wait", "k": rng.choice(list(KINDS)), "o": rng.randint(1, n)})
            elif r < .96:
                steps.append({"do": "other", "m": rng.choice(["raise", "drop"]), "o": rng.randint(1, n)})
            elif r < .97 and rng.random() < .5:
                steps.append({"do": "clear"})
                src = {}
            else:
                steps.append({"do": "obs"})
        if rng.random() < .5:
            for o in src:
                if src[o]:
                    steps.append({"do": "drop", "o": o, "c": src[o]})
        yield {"par": par, "drain": drain, "hd": hd, "seed": rng.randrange(1 << 30), "steps": steps,
               "reraise": rng.randint(2, n) if rng.random() < .2 else 0,
               "cb": rng.random() < .4, "none_top": rng.random() < .3, "trace": rng.random() < .1}


C02 = ("all_dropped", "drain", "drop-not-propagated", "notification", "wait_for")


def gen_(h):
    return gen(h)


CHECKS = {
    "C01": Check(Part("Objection", execute, scenarios, mc=["MC_Objection"], gen=gen, gen_cap=(2000, 40000))),
    "C02": Check(Part("Objection", execute, scenarios, mc=["MC_Objection"], gen=gen, gen_cap=(2000, 40000))),
}
