"""Semaphores (spec Semaphore)."""
import cocotb
import fakesim
from cocotb.triggers import Timer, NullTrigger
from cocotb.utils import get_sim_time
from registry import Part, Check
from uvm.base.sv import semaphore


def now():
    return int(get_sim_time("ns"))


def execute(scn, ev):
    ev.append({"op": "cfg", "n": scn["n"]})
    keep = {}

    async def main():
        sem = semaphore(scn["n"])
        tasks = {}

        async def proc(w, s):
            if s.get("dflt") and s["n"] == 1:
                await sem.get()
            else:
                await sem.get(s["n"])
            ev.append({"op": "got", "t": now(), "w": w})
            if "hold" in s:
                if s["hold"]:
                    await Timer(s["hold"], "NS")
                ev.append({"op": "put", "t": now(), "n": s["n"]})
                sem.put(s["n"])
        nw = 0
        for s in scn["h"]:
            d = s["do"]
            if d == "tick":
                await Timer(s["n"], "NS")
                ev.append({"op": "obs", "t": now()})
            elif d == "delta":
                for _ in range(s["n"]):
                    await NullTrigger()
            elif d == "req":
                nw += 1
                w = s.get("w", nw)
                ev.append({"op": "req", "t": now(), "w": w, "n": s["n"]})
                tasks[w] = await cocotb.start(proc(w, s))
            elif d == "put":
                ev.append({"op": "put", "t": now(), "n": s["n"]})
                if s.get("dflt") and s["n"] == 1:
                    sem.put()
                else:
                    sem.put(s["n"])
            elif d == "try":
                e = {"op": "try", "t": now(), "n": s["n"]}
                e["r"] = bool(sem.try_get(s["n"]))
                ev.append(e)
        await Timer(50, "NS")
        ev.append({"op": "obs", "t": now()})
        # what is left
        while True:
            e = {"op": "try", "t": now(), "n": 1}
            e["r"] = bool(sem.try_get(1))
            ev.append(e)
            if not e["r"]:
                break
        keep["t"] = tasks
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def gen(g):
    """A process that goes on does so by itself: the order of the model's steps is kept by waiting where it goes on."""
    h = []
    for s in g[1:]:
        if s["do"] == "got":
            h.append({"do": "delta", "n": 3})
        else:
            h.append({k: v for k, v in s.items() if k != "op"})
    return {"n": g[0]["n"], "h": h, "seed": 1}


def scenarios(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        h, nw = [], 0
        top = rng.choice([1, 2, 3, 5])
        for _ in range(rng.randint(4, 30)):
            d = rng.choices(["req", "put", "try", "tick", "delta"], [6, 3, 2, 2, 3])[0]
            s = {"do": d, "n": rng.randint(1, top), "dflt": rng.random() < .5}
            if d == "req":
                nw += 1
                if rng.random() < .7:
                    s["hold"] = rng.randint(0, 3)
                if rng.random() < .03:
                    s["n"] = 0
            elif d == "delta":
                s["n"] = rng.randint(1, 3)
            h.append(s)
        yield {"n": rng.randint(0, top + 1), "h": h, "seed": rng.getrandbits(30)}


CHECKS = {"C15": Check(Part("Semaphore", execute, scenarios, mc=["MC_Semaphore"], gen=gen, gen_cap=(1000, 15000)))}
