"""Events and barriers (specs Event, Barrier)."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger
from cocotb.utils import get_sim_time
from registry import Part, Check
from vlib import S, I
import uvm
from uvm.base.uvm_event import UVMEvent
try:
    from uvm.base.uvm_event_callback import UVMEventCallback
except ImportError:
    UVMEventCallback = object
from uvm.base.uvm_barrier import UVMBarrier
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_WARNING, UVM_NO_ACTION


def now():
    return int(get_sim_time("ns"))


def run(main, scn, ev):
    UVMCoreService.get().get_root().set_report_severity_action(UVM_WARNING, UVM_NO_ACTION)
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


async def idle(scn, s):
    if s["do"] == "tick":
        await Timer(s.get("n", 1), "NS")
        return True
    if s["do"] == "delta":
        for _ in range(s.get("n", 1)):
            await NullTrigger()
        return True
    return False


def execute_event(scn, ev):
    calls = []

    class CB(UVMEventCallback):
        def __init__(self, id, veto):
            try:
                super().__init__(id)
            except TypeError:
                super().__init__()
            self.id, self.veto = id, veto

        def pre_trigger(self, e, data):
            calls.append("pre:" + self.id)
            return 1 if self.veto else 0

        def post_trigger(self, e, data):
            calls.append("post:" + self.id)

    async def main():
        e = UVMEvent("e")
        cbs = {}
        n = 0
        nw = 0

        def obs():
            ev.append({"op": "obs", "t": now(), "on": bool(e.is_on()), "off": bool(e.is_off()),
                       "nw": I(e.get_num_waiters()), "ttime": I(e.get_trigger_time()),
                       "tdata": S(e.get_trigger_data())})

        async def waiter(w, k, dat):
            ev.append({"op": "wcall", "t": now(), "w": w, "k": k})
            d = "-"
            if k == "trig" and dat:
                d = S(await e.wait_trigger_data())
            elif k == "trig":
                await e.wait_trigger()
            elif k == "ptrig" and dat:
                o = []
                await e.wait_ptrigger_data(o)
                d = S(o[-1]) if o else "?"
            elif k == "ptrig":
                await e.wait_ptrigger()
            elif k == "on":
                await e.wait_on(dat)
            else:
                await e.wait_off(dat)
            ev.append({"op": "wret", "t": now(), "w": w, "d": d})

        for s in scn["steps"]:
            if await idle(scn, s):
                obs()
                continue
            d = s["do"]
            if d == "trigger":
                n += 1
                del calls[:]
                x = "d%d" % n if n % 4 else None
                if x is None:
                    e.trigger()
                else:
                    e.trigger(x)
                ev.append({"op": "trigger", "t": now(), "d": S(x), "calls": list(calls)})
            elif d == "reset":
                e.reset(s["wakeup"])
                ev.append({"op": "reset", "t": now(), "wakeup": s["wakeup"]})
            elif d == "cancel":
                e.cancel()
                ev.append({"op": "cancel", "t": now()})
            elif d == "addcb":
                c = cbs.setdefault(s["id"], CB(s["id"], s["veto"]))
                if s["append"] and n % 2:
                    e.add_callback(c)
                else:
                    e.add_callback(c, s["append"])
                ev.append({"op": "addcb", "t": now(), "id": s["id"], "veto": c.veto, "append": s["append"]})
            elif d == "delcb":
                c = cbs.setdefault(s["id"], CB(s["id"], False))
                e.delete_callback(c)
                ev.append({"op": "delcb", "t": now(), "id": s["id"]})
            elif d == "wait":
                nw += 1
                await cocotb.start(waiter(nw, s["k"], s.get("data", False)))
            obs()
        await Timer(5, "NS")
        obs()
    run(main, scn, ev)


def execute_barrier(scn, ev):
    ev.append({"op": "cfg", "thr": scn["thr"]})

    async def main():
        b = UVMBarrier("b", scn["thr"])
        nw = 0

        def obs():
            ev.append({"op": "obs", "t": now(), "n": I(b.get_num_waiters()), "thr": I(b.get_threshold())})

        async def waiter(w):
            ev.append({"op": "wcall", "t": now(), "w": w})
            await b.wait_for()
            ev.append({"op": "wret", "t": now(), "w": w})

        for s in scn["steps"]:
            if await idle(scn, s):
                obs()
                continue
            d = s["do"]
            if d == "wait":
                nw += 1
                await cocotb.start(waiter(nw))
            else:
                if d == "reset":
                    b.reset(1 if s["wakeup"] else 0)
                elif d == "auto":
                    b.set_auto_reset(1 if s["v"] else 0)
                elif d == "thr":
                    b.set_threshold(s["v"])
                elif d == "cancel":
                    b.cancel()
                ev.append(dict({k: v for k, v in s.items() if k != "do"}, op=d, t=now()))
            obs()
        await Timer(5, "NS")
        obs()
    run(main, scn, ev)


def mkgen(barrier):
    def gen(h):
        k = hash(str(h))
        steps = []
        for i, s in enumerate(h[1:] if barrier else h):
            s = dict(s)
            if s["do"] == "wait":
                s["data"] = bool((k >> (i + 8)) & 1)
            steps.append(s)
            if (k >> i) & 1 and s["do"] != "tick":
                steps.append({"do": "delta", "n": 1 + (k >> (2 * i)) % 3})
        r = {"seed": k & 0xffff, "steps": steps}
        if barrier:
            r["thr"] = h[0]["v"]
        return r
    return gen


def scen_event(rng, tier):
    for _ in range(500 if tier == "quick" else 8000):
        steps = []
        w = [3, 4, rng.random(), rng.random() * .5, rng.random(), rng.random() * .5, 1.5, 2]
        pv = rng.choice([0, 0, .3])
        for _ in range(rng.randint(4, 30)):
            d = rng.choices(["trigger", "wait", "reset", "cancel", "addcb", "delcb", "tick", "delta"], w)[0]
            s = {"do": d}
            if d == "wait":
                s.update(k=rng.choice(["trig", "ptrig", "on", "off"]), data=rng.random() < .5)
            elif d == "reset":
                s["wakeup"] = rng.random() < .5
            elif d == "addcb":
                s.update(id=rng.choice("abcd"), veto=rng.random() < pv, append=rng.random() < .6)
            elif d == "delcb":
                s["id"] = rng.choice("abcd")
            elif d in ("tick", "delta"):
                s["n"] = rng.randint(1, 3)
            steps.append(s)
        yield {"seed": rng.randrange(1 << 30), "steps": steps}


def scen_barrier(rng, tier):
    for _ in range(500 if tier == "quick" else 8000):
        steps = []
        w = [6, rng.random(), rng.random(), rng.random(), rng.random() * .5, 1.5, 2]
        for _ in range(rng.randint(4, 30)):
            d = rng.choices(["wait", "reset", "auto", "thr", "cancel", "tick", "delta"], w)[0]
            s = {"do": d}
            if d == "reset":
                s["wakeup"] = rng.random() < .6
            elif d == "auto":
                s["v"] = rng.random() < .5
            elif d == "thr":
                s["v"] = rng.randint(0, 6)
            elif d in ("tick", "delta"):
                s["n"] = rng.randint(1, 3)
            steps.append(s)
        yield {"seed": rng.randrange(1 << 30), "thr": rng.randint(0, 6), "steps": steps}


CHECKS = {
    "C13": Check(Part("Event", execute_event, scen_event, mc=["MC_Event"], gen=mkgen(False), gen_cap=(1500, 30000))),
    "C14": Check(Part("Barrier", execute_barrier, scen_barrier, mc=["MC_Barrier"], gen=mkgen(True), gen_cap=(1500, 30000))),
}
