"""Access-policy containers (spec Dap)."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_packer import UVMPacker
from uvm.dap.uvm_get_to_lock_dap import uvm_get_to_lock_dap
from uvm.dap.uvm_set_before_get_dap import uvm_set_before_get_dap
from uvm.dap.uvm_simple_lock_dap import uvm_simple_lock_dap
from uvm.seq.uvm_sequence import UVMSequence

T = {"sbg": uvm_set_before_get_dap, "gtl": uvm_get_to_lock_dap, "sl": uvm_simple_lock_dap}


class Phase:
    """The starting phase of a sequence, seen as a get-to-lock container."""

    def __init__(self, seq):
        self.set, self.get = seq.set_starting_phase, seq.get_starting_phase


class Auto:
    def __init__(self, seq):
        self.set, self.get = seq.set_automatic_phase_objection, seq.get_automatic_phase_objection


def execute(scn, ev):
    kinds = scn["kinds"]
    ev.append({"op": "cfg", "kinds": ["gtl" if k in ("phase", "auto") else k for k in kinds]})
    utest.quiet()
    seq = UVMSequence("s")
    ds = [Phase(seq) if k == "phase" else Auto(seq) if k == "auto" else
          (T[k].type_id.create("d") if scn.get("fac") else T[k]("d")) for k in kinds]
    objs = {}

    def val(v):
        return objs.setdefault(v, object()) if scn.get("objs") else v

    def num(x):
        if x is None:
            return 0
        for v, o in objs.items():
            if o is x:
                return v
        return x if isinstance(x, int) else -1
    for s in scn["h"]:
        d, x = s["do"], ds[s["i"] - 1]
        e = {"op": d, **{k: v for k, v in s.items() if k != "do"}}
        n = utest.errors()
        r = []
        if d == "set":
            x.set(val(s["v"]))
        elif d == "try_set":
            r = [int(x.try_set(val(s["v"])))]
        elif d == "get":
            r = [num(x.get())]
        elif d == "try_get":
            out = []
            r = [int(x.try_get(out))] + [num(o) for o in out]
        elif d == "lock":
            x.lock()
        elif d == "unlock":
            x.unlock()
        elif d == "is_locked":
            r = [int(x.is_locked())]
        elif d == "copy":
            x.copy(ds[s["from"] - 1])
        elif d == "clone":
            x.clone()
        elif d == "pack":
            x.pack(UVMPacker())
        elif d == "unpack":
            x.unpack(5, UVMPacker())
        e["r"], e["err"] = r, utest.errors() > n
        ev.append(e)


def gen(g):
    for s in g["h"]:
        s.pop("op")
    return dict(g, h=g["h"] + [{"do": "try_get", "i": 1}, {"do": "try_get", "i": 2}])


def scenarios(rng, tier):
    for _ in range(600 if tier == "quick" else 9000):
        kinds = [rng.choice(["sbg", "gtl", "sl"]) for _ in range(rng.randint(1, 3))] + rng.choice([[], ["phase"], ["auto", "phase"]])
        h = []
        for _ in range(rng.randint(3, 30)):
            i = rng.randint(1, len(kinds))
            k = kinds[i - 1]
            d = rng.choice(["set", "set", "get", "try_set", "try_get", "try_set", "copy", "clone", "pack", "unpack"] + ["lock", "unlock", "is_locked"] * 2)
            if d in ("lock", "unlock", "is_locked") and k != "sl":
                d = "set"
            if d == "get" and rng.random() < .5:
                continue
            if k in ("phase", "auto") and d not in ("set", "get"):
                d = "set"
            s = {"do": d, "i": i}
            if d in ("set", "try_set"):
                s["v"] = rng.randint(1, 9)
            if d == "copy":
                s["from"] = rng.randint(1, len(kinds))
                if s["from"] == i or kinds[s["from"] - 1] != k:
                    continue
            h.append(s)
        yield {"kinds": kinds, "h": h, "objs": rng.random() < .5, "fac": rng.random() < .3}


CHECKS = {"C34": Check(Part("Dap", execute, scenarios, mc=["MC_Dap"], gen=gen, gen_cap=(1500, 9000)))}
