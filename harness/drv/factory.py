"""Factory overrides (spec Factory)."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import UVM_ERROR
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils

NAMES = ["TA", "TB", "TC", "TD", "TE"]


def execute(scn, ev):
    ch = {}

    def st(s):
        ch[s] = list(s)
        return s
    ev.append({"op": "cfg", "ch": ch})
    utest.quiet()
    f = UVMCoreService.get().get_factory()
    comp = scn["comp"]
    kls = {}
    st("")

    def define(n):
        if n in kls:
            return
        if comp:
            K = type(n, (UVMComponent,), {"__init__": lambda self, name, parent: UVMComponent.__init__(self, name, parent)})
            uvm_component_utils(K)
        else:
            K = type(n, (UVMObject,), {"__init__": lambda self, name="": UVMObject.__init__(self, name)})
            uvm_object_utils(K)
        kls[n] = K
        ev.append({"op": "def", "n": n})
    parents = {"": None}
    if comp:
        t = UVMComponent("t", None)
        parents.update({"t": t, "t.e": UVMComponent("e", t), "t.ee": UVMComponent("ee", t)})
    cnt = [0]
    for n in NAMES[:scn["n"]]:
        define(n)
    done = set()
    for s in scn["steps"]:
        d = s["do"]
        if d == "def":
            define(s["n"])
        elif d == "tov":
            e0 = utest.errors()
            if s["how"] == "type":
                if s["o"] not in kls or s["r"] not in kls:
                    continue
                if s.get("reg"):
                    kls[s["o"]].type_id.set_type_override(kls[s["r"]].type_id.get(), s["rep"])
                else:
                    f.set_type_override_by_type(kls[s["o"]].get_type(), kls[s["r"]].get_type(), s["rep"])
            else:
                f.set_type_override_by_name(s["o"], s["r"], s["rep"])
            ev.append({"op": "tov", "how": s["how"], "o": s["o"], "r": s["r"], "rep": s["rep"], "err": utest.errors() > e0})
        elif d == "iov":
            if s["o"] not in kls or s["r"] not in kls:
                continue
            if s.get("reg"):
                par = parents.get(s.get("par", ""))
                kls[s["o"]].type_id.set_inst_override(kls[s["r"]].type_id.get(), s["path"], par)
                path = s["path"] if par is None else par.get_full_name() + ("." + s["path"] if s["path"] else "")
            else:
                f.set_inst_override_by_type(kls[s["o"]].get_type(), kls[s["r"]].get_type(), s["path"])
                path = s["path"]
            ev.append({"op": "iov", "o": s["o"], "r": s["r"], "path": st(path)})
        elif d == "wrapper":
            w = f.find_wrapper_by_name(s["n"])
            ev.append({"op": "wrapper", "n": s["n"], "ok": w is not None})
        elif d == "debug":
            if s["how"] == "type" and s["n"] in kls:
                f.debug_create_by_type(kls[s["n"]].get_type(), s["parent"], s["name"])
            elif s["how"] == "name" and s["n"] in kls:
                f.debug_create_by_name(s["n"], s["parent"], s["name"])
        elif d == "create":
            how, n, pp, name = s["how"], s["n"], s["parent"], s["name"]
            if how != "name" and n not in kls:
                continue
            if comp:
                if not name:
                    name = "x"
                if pp not in parents:
                    pp = ""
                base = name
                while (pp, name) in done or (pp == "t" and name in ("e", "ee")):
                    cnt[0] += 1
                    name = "%s%d" % (base, cnt[0])
                done.add((pp, name))
            path = st(pp + "." + name if pp and name else pp or name)
            e0 = utest.errors()
            if comp:
                par = parents[pp]
                if how == "name":
                    o = f.create_component_by_name(n, pp, name, par)
                elif how == "type":
                    o = f.create_component_by_type(kls[n].get_type(), pp, name, par)
                else:
                    o = kls[n].type_id.create(name, par)
            elif how == "name":
                o = f.create_object_by_name(n, pp, name)
            elif how == "type":
                o = f.create_object_by_type(kls[n].get_type(), pp, name)
            else:
                o = kls[n].type_id.create(name, None, pp)
            ev.append({"op": "create", "how": "name" if how == "name" else "type", "n": n, "path": path,
                       "res": "none" if o is None else type(o).__name__, "loop": utest.errors() > e0})
            if o is not None and (o.get_name() != name or (comp and o.get_full_name() != path)):
                ev[-1]["res"] = "misnamed:" + o.get_full_name()


def creates(paths, names, hows=("type", "name")):
    return [{"do": "create", "how": how, "n": n, "parent": p, "name": x} for n in names for p, x in paths for how in hows]


def gen(h):
    k = hash(str(h))
    return {"n": 3, "comp": k % 3 == 0, "steps": list(h) + creates([("", ""), ("t", "x"), ("t", "y")], ["TA", "TB", "TC"])}


def scenarios(rng, tier):
    pats = ["*", "t.x", "t.*", "*.x", "t.e.x", "?.x", "x", "/x$/", "t.e*", "*y*", "nope"]
    for _ in range(800 if tier == "quick" else 12000):
        n = rng.randint(2, 5)
        names = NAMES[:rng.choice([n, 5])]
        steps = []
        pi = rng.choice([0, 1, 3])
        for _ in range(rng.randint(2, 14)):
            d = rng.choices(["tov", "iov", "create", "def", "wrapper", "debug"], [3, pi, 3, 1 if n < 5 else 0, .3, .3])[0]
            o, r = rng.choice(names), rng.choice(names)
            if rng.random() < .7 and o > r:
                o, r = r, o
            s = {"do": d, "o": o, "r": r, "n": rng.choice(names), "how": rng.choice(["type", "name", "name"] if d == "tov" else ["type", "name", "reg"]),
                 "rep": rng.random() < .7, "reg": rng.random() < .3, "path": rng.choice(pats), "par": rng.choice(["", "t", "t.e"]),
                 "parent": rng.choice(["", "t", "t.e", "t.ee"]), "name": rng.choice(["x", "y", "", "xy"])}
            if d == "tov" and rng.random() < .05:
                s["r"] = "Unknown"
                s["how"] = "name"
            steps.append(s)
        steps += rng.sample(creates([("", "x"), ("t", "x"), ("t.e", "x"), ("t", "y")], names), 6)
        yield {"n": n, "comp": rng.random() < .5, "steps": steps}


CHECKS = {"C19": Check(Part("Factory", execute, scenarios, mc=["MC_Factory"], gen=gen, gen_cap=(800, 20000)))}
