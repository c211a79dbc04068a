"""Objects with registered fields: copy, clone and compare (spec Objects)."""
import random
from registry import Part, Check
from uvm.base.uvm_comparer import UVMComparer
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import (UVM_ALL_ON, UVM_NOCOMPARE, UVM_NOCOPY, UVM_REFERENCE, UVM_COUNT, UVM_INFO,
                                         UVM_WARNING)
from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                           uvm_field_string, uvm_field_object, uvm_field_aa_string_string)

MAC = {"int": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object, "map": uvm_field_aa_string_string}
TAB, PY = [], []


def fl(f, k, d, flags="", bits=0):
    return {"f": f, "k": k, "d": d, "copy": "C" not in flags, "cmp": "M" not in flags, "ref": "R" in flags, "bits": bits}


def cls(name, base, fields, hooks=()):
    """A class with the fields, registered by the field macros; the hook fields are left to do_copy and do_compare."""
    allf = list(fields) + list(hooks)

    def init(self, nm=name):
        PY[base - 1].__init__(self, nm) if base else UVMObject.__init__(self, nm)
        for q in allf:
            setattr(self, q["f"], dict() if q["k"] == "map" else (None if q["k"] == "obj" else q["d"]))
    body = {"__init__": init}
    if hooks:
        def do_copy(self, rhs):
            for q in hooks:
                if hasattr(rhs, q["f"]) and q["copy"]:
                    setattr(self, q["f"], getattr(rhs, q["f"]))

        def do_compare(self, rhs, comparer):
            for q in hooks:
                if hasattr(rhs, q["f"]):
                    a, b = getattr(self, q["f"]), getattr(rhs, q["f"])
                    if q["k"] == "str":
                        comparer.compare_field(q["f"], int(a, 16), int(b, 16), 70)
                    else:
                        comparer.compare_field(q["f"], a, b, q["bits"])
            return comparer.result == 0
        body.update(do_copy=do_copy, do_compare=do_compare)
    T = type(name, (PY[base - 1] if base else UVMObject,), body)
    uvm_object_utils_begin(T)
    for q in fields:
        MAC[q["k"]](q["f"], UVM_ALL_ON | (0 if q["copy"] else UVM_NOCOPY) | (0 if q["cmp"] else UVM_NOCOMPARE) |
                    (UVM_REFERENCE if q["ref"] else 0))
    uvm_object_utils_end(T)
    TAB.append({"base": base, "fields": allf})
    PY.append(T)


# the first two are the classes of MC_Objects
cls("Pair", 0, [fl("p", "int", 0), fl("x", "obj", 0)])
cls("Sub", 1, [fl("q", "int", 5, "C"), fl("y", "obj", 0), fl("z", "obj", 0, "RM")])
cls("Leaf", 0, [fl("i", "int", 0), fl("s", "str", ""), fl("nc", "int", 3, "C"), fl("nm", "int", 4, "M")])
cls("Leaf2", 3, [fl("i2", "int", 7), fl("m2", "map", {})])
cls("Leaf3", 4, [fl("s3", "str", "x", "M"), fl("o3", "obj", 0)])
cls("Node", 0, [fl("v", "int", 0), fl("l", "obj", 0), fl("r", "obj", 0), fl("up", "obj", 0, "RM"), fl("m", "map", {}),
                fl("onm", "obj", 0, "M"), fl("onc", "obj", 0, "C")])
cls("Hook", 0, [fl("a", "int", 0), fl("o", "obj", 0)],
    [fl("h4", "int", 0, bits=4), fl("h0", "int", 0), fl("hw", "str", "0"), fl("hc", "int", 1, "C", bits=9)])
cls("NodeX", 6, [fl("nx", "obj", 0), fl("w", "int", 9)])
ALLF = {}
for _k, _t in enumerate(TAB):
    ALLF[_k + 1] = (ALLF[_t["base"]] if _t["base"] else []) + _t["fields"]
VALS = {"int": [0, 1, 2, 15, 16, 17, 255, 511, 512, -1, -2], "str": ["", "a", "A", "ab", "x"],
        "hex": ["0", "1", hex(1 << 69)[2:], hex((1 << 69) + 1)[2:], hex(1 << 40)[2:]], "key": ["k", "j", "K"]}


def execute(scn, ev):
    ev.append({"op": "cfg", "classes": TAB, "heap": []})
    root = UVMCoreService.get().get_root()
    root.set_report_severity_action_hier(UVM_INFO, UVM_COUNT)
    root.set_report_severity_action_hier(UVM_WARNING, UVM_COUNT)
    srv = UVMCoreService.get().get_report_server()
    UVMObject.uvm_global_copy_map = {}
    obs, own = [], UVMComparer()

    def find(o, add):
        if o is None:
            return 0
        for k, q in enumerate(obs):
            if q is o:
                return k + 1
        if not add:
            return -1
        obs.append(o)
        return len(obs)

    def explore(o):
        """Numbers the objects that are new in the order in which fields reach them."""
        for q in ALLF[PY.index(type(o)) + 1]:
            if q["k"] == "obj":
                w = getattr(o, q["f"])
                n = len(obs)
                if w is not None and find(w, True) > n:
                    explore(w)

    def dump():
        res = []
        for o in obs:
            c = PY.index(type(o)) + 1
            v = {}
            for q in ALLF[c]:
                w = getattr(o, q["f"])
                v[q["f"]] = find(w, False) if q["k"] == "obj" else (dict(w) if q["k"] == "map" else w)
            res.append({"c": c, "v": v})
        return res

    def ob(n):
        return obs[n - 1] if n else None
    for s in scn["steps"]:
        d = s["do"]
        e = {"op": d, **{k: v for k, v in s.items() if k != "do"}}
        if d == "new":
            obs.append(PY[s["c"] - 1]("ob%d" % (len(obs) + 1)))
        elif d == "set":
            o = ob(s["a"])
            q = [x for x in ALLF[PY.index(type(o)) + 1] if x["f"] == s["f"]][0]
            if q["k"] == "obj":
                setattr(o, s["f"], ob(s["v"]))
            elif q["k"] == "map":
                w = getattr(o, s["f"])
                w.clear()
                w.update(s["v"])
            else:
                setattr(o, s["f"], s["v"])
        elif d == "copy":
            ob(s["a"]).copy(ob(s["b"]))
            explore(ob(s["a"]))
        elif d == "clone":
            n = len(obs)
            o = ob(s["a"]).clone()
            e["r"] = find(o, True)
            if e["r"] > n:
                explore(o)
            e["name"], e["of"] = o.get_name(), ob(s["a"]).get_name()
        elif d == "compare":
            n0 = srv.get_id_count("MISCMP")
            if s.get("dflt"):
                from uvm.base import uvm_global_vars
                cm = uvm_global_vars.uvm_default_comparer
                r = ob(s["a"]).compare(ob(s["b"]))
            else:
                cm = own
                own.show_max, own.check_type = s["max"], 1 if s["ct"] else 0
                r = ob(s["a"]).compare(ob(s["b"]), own)
            e["res"], e["n"], e["msgs"] = bool(r), cm.result, srv.get_id_count("MISCMP") - n0
            e.pop("dflt", None)
        e["heap"] = dump()
        ev.append(e)


def gen(h):
    steps = [dict(do=s["do"], **{k: v for k, v in s.items() if k not in ("do", "op")}) for s in h]
    n = sum(1 for s in steps if s["do"] in ("new", "clone"))
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            steps.append({"do": "compare", "a": a, "b": b, "max": 9, "ct": True})
    return {"steps": steps}


def val(rng, q, n, pool):
    if q["k"] == "int":
        return rng.choice(pool)
    if q["k"] == "str":
        return rng.choice(VALS["hex"] if q["f"] == "hw" else VALS["str"])
    if q["k"] == "map":
        return {k: rng.choice(VALS["str"]) for k in rng.sample(VALS["key"], rng.randint(0, 2))}
    return rng.choice([0] + list(range(1, n + 1)))


def scenarios(rng, tier):
    for _ in range(500 if tier == "quick" else 12000):
        steps, cl = [], []
        kinds = rng.choice([[1, 2], [3, 4, 5], [6, 8], [7, 6], [1, 2, 3, 4, 5, 6, 7, 8], [6], [8], [4, 4, 5]])
        pool = rng.sample(VALS["int"], rng.randint(2, 5))
        for _ in range(rng.randint(2, 6)):
            cl.append(rng.choice(kinds))
            steps.append({"do": "new", "c": cl[-1]})
        dens = rng.random()
        for a, c in enumerate(cl):
            for q in ALLF[c]:
                if rng.random() < dens:
                    steps.append({"do": "set", "a": a + 1, "f": q["f"], "v": val(rng, q, len(cl), pool)})
        n, grown = len(cl), False
        for _ in range(rng.randint(3, 25)):
            a, b = rng.randint(1, n), rng.randint(1, n)
            d = rng.choices(["set", "copy", "clone", "compare", "pair"], [4, 2, 2 if n < 9 else 0, 5, 2])[0]
            if d == "set":
                q = rng.choice(ALLF[cl[a - 1]])
                steps.append({"do": d, "a": a, "f": q["f"], "v": val(rng, q, n, pool)})
            elif d == "copy" and a != b:
                steps.append({"do": d, "a": a, "b": rng.choice([b, b, b, b, b, 0])})
            elif d == "clone":
                # objects which the clone brings along are not addressed by number afterwards: only the heap is compared
                steps.append({"do": d, "a": a})
                break_after = rng.random() < .5
                if break_after:
                    steps.append({"do": "set", "a": a, "f": (q := rng.choice(ALLF[cl[a - 1]]))["f"], "v": val(rng, q, n, pool)})
            elif d in ("compare", "pair"):
                if d == "pair":
                    steps.append({"do": "copy", "a": a, "b": b}) if a != b else None
                if rng.random() < .3:
                    steps.append({"do": "compare", "a": a, "b": b, "max": 1, "ct": True, "dflt": True})
                else:
                    steps.append({"do": "compare", "a": a, "b": rng.choice([b] * 9 + [0]), "max": rng.choice([1, 2, 5, 50]),
                                  "ct": rng.random() < .7})
        yield {"steps": steps}


CHECKS = {"C24": Check(Part("Objects", execute, scenarios, mc=["MC_Objects"], gen=gen, gen_cap=(400, 12000)))}
