"""The tree of components (spec Hierarchy)."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_FATAL, UVM_ERROR, UVM_WARNING, UVM_COUNT
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, THROW, CAUGHT
from uvm.macros import uvm_component_utils


class HComp(UVMComponent):
    order = shown = None

    def flush(self):
        HComp.order.append(self)

    def do_print(self, printer):
        if HComp.shown is not None:
            HComp.shown.append(self)
        super().do_print(printer)

    def resolve_bindings(self):
        if HComp.order is not None:
            HComp.order.append(self)


uvm_component_utils(HComp)


class Catch(UVMReportCatcher):
    """Counts errors and fatal errors and lets none go on."""
    cnt = None

    def catch(self):
        sev = self.get_severity()
        if sev in (UVM_FATAL, UVM_ERROR):
            self.cnt["f" if sev == UVM_FATAL else "e"] += 1
            return CAUGHT
        return THROW


def execute(scn, ev):
    ev.append({"op": "cfg"})
    root = utest.root()
    comps = [root]
    srv = UVMCoreService.get().get_report_server()
    cnt = {}
    box = {"f": 0, "e": 0}

    def num(c):
        return next((i for i, x in enumerate(comps) if x is c), -2) if c is not None else -1

    def delta():
        d = box["f"], box["e"]
        box.update(f=0, e=0)
        return d

    def warned(i):
        n = srv.get_id_count(i)
        d = n - cnt.get(i, 0)
        cnt[i] = n
        return d > 0

    def prepare():
        utest.quiet()
        root.set_report_severity_action(UVM_WARNING, UVM_COUNT)
        c = Catch("catch")
        c.cnt = box
        UVMReportCb.add(None, c)

    def reg(c, e):
        e.update(full=list(c.get_full_name()), depth=c.get_depth(), par=num(c.get_parent()))

    def do(s):
        d = s["do"]
        e = {k: v for k, v in s.items() if k not in ("do", "ph", "pat2")}
        e["op"] = d
        c = comps[s["c"] % len(comps)] if "c" in s else None
        if c is not None:
            e["c"] = num(c)
        if d == "new":
            p = comps[s["p"] % len(comps)]
            e["p"] = num(p)
            n = "".join(s["n"])
            if s.get("how") == "create" and p is not root:
                x = p.create_component("HComp", n)
            elif s.get("how") == "id":
                x = HComp.type_id.create(n, None if p is root else p)
            else:
                x = HComp(n, None if p is root and s.get("none") else p)
            e["n"] = list(x.get_name()) if not s["n"] else s["n"]
            e["kid"] = num_in(p, x)
            e["fat"] = delta()[0]
            if e["fat"] == 0:
                comps.append(x)
                reg(x, e)
            ev.append(e)
            return
        if d == "name":
            c.set_name("other")
            e["full"], e["depth"] = list(c.get_full_name()), c.get_depth()
            e["fat"], e["err"] = delta()
            ev.append(e)
            return
        if d == "lookup":
            q = ".".join("".join(x) for x in s["path"])
            e["r"] = num(c.lookup(("." if s["abs"] else "") + q))
            e["warn"] = warned("Lookup Error")
        elif d == "kids":
            arr, it, pat = [], [], "".join(s["pat"])
            c.get_children(arr)
            k = c.get_first_child()
            while k is not None:
                it.append(num(k))
                # what the loop over the children may do
                root.find_all(pat, [])
                root.find(pat)
                root.print_topology()
                c.lookup("nobody")
                root.set_report_verbosity_level_hier(100)
                k = c.get_next_child()
                if len(it) > len(comps):
                    break
            e.update(all=[num(x) for x in arr], iter=it, n=c.get_num_children())
            warned("Lookup Error"), warned("MMATCH"), warned("CMPNFD")
        elif d == "has":
            n = "".join(s["n"])
            e.update(h=bool(c.has_child(n)), r=num(c.get_child(n)))
        elif d == "all":
            got = []
            if c is root and s.get("none"):
                root.find_all("".join(s["pat"]), got)
            else:
                root.find_all("".join(s["pat"]), got, c)
            e["r"] = [num(x) for x in got]
        elif d == "find":
            e["c"] = 0
            e["r"] = num(root.find("".join(s["pat"])))
            e["warn"] = warned("MMATCH") | warned("CMPNFD")
        elif d == "visit":
            HComp.order = []
            (c.do_flush if s.get("fl") else c.do_resolve_bindings)()
            # only the components of this test record the visit
            e["r"] = [num(x) for x in HComp.order] + ([num(test[0])] if test and (c is test[0] or c is root) else [])
            HComp.order = None
        elif d == "topo":
            HComp.shown = []
            if c is root:
                root.print_topology()
            else:
                c.sprint()
            e["r"] = [num(x) for x in HComp.shown]
            e["test"] = num(test[0]) if test else -3  # the test itself does not record
            HComp.shown = None
            warned("EMTCOMP")
        elif d == "tops":
            e["r"] = [num(x) for x in root.top_levels]
        e["fat"] = delta()[0]
        ev.append(e)

    def num_in(p, x):
        arr = []
        p.get_children(arr)
        return any(y is x for y in arr)
    test = []

    def build(t):
        comps.append(t)
        test.append(t)
        e = {"op": "new", "n": list("uvm_test_top"), "p": 0, "fat": delta()[0], "kid": True}
        reg(t, e)
        ev.append(e)
        for s in scn["h"]:
            if s.get("ph", 1) == 1:
                do(s)

    def pre():
        prepare()
        for s in scn["h"]:
            if s.get("ph", 1) == 0:
                do(s)

    async def main(t, phase):
        ev.append({"op": "built"})
        for s in scn["h"]:
            if s.get("ph", 1) == 2:
                do(s)
    utest.run({"build": build, "run": main}, ev, seed=1, pre=pre)


def gen(g):
    # before the test starts: the numbers of the components are the model's
    return {"h": [dict({k: v for k, v in s.items() if k != "op"}, ph=0) for s in g]}


NAMES = ["a", "b", "ab", "a0", "ag[0]", "ag[1]", "ag[10]", "env", "env1", "drv", "uvm_test_top", "x_y", "a b"]


def scenarios(rng, tier):
    for _ in range(300 if tier == "quick" else 6000):
        names = rng.sample(NAMES, rng.randint(2, 6))
        h, full = [], [""]

        def pat():
            f = rng.choice(full)
            c = rng.random()
            if c < .3:
                return list(f or "*")
            if c < .6:
                i = rng.randint(0, len(f))
                return list(f[:i] + "*" + (f[rng.randint(i, len(f)):] if rng.random() < .6 else ""))
            if c < .7:
                return ["/", *[x for x in (f or "a") if x.isalnum() or x == "_"][:4], "/"]
            return list(rng.choice(["*", "?", "*.a", "*.*", "a*", "uvm_test_top.*", "*[0]", "*.ag[*", "??", "env", "*b"]))
        phs = sorted(rng.choices([0, 1, 2], [2, 6, 3], k=rng.randint(4, 26)))
        # the test's component comes between phase 0 and phase 1
        hastest = False
        for ph in phs:
            if ph > 0 and not hastest:
                full.append("uvm_test_top")
                hastest = True
            d = rng.choices(["new", "lookup", "kids", "has", "all", "find", "visit", "name", "tops", "topo"],
                            [10 if ph < 2 else .6, 3, 3, 1, 3, 2, 1, .5, .5, 1])[0]
            s = {"do": d, "ph": ph, "c": rng.randrange(len(full)), "none": rng.random() < .5, "pat": pat(), "fl": rng.random() < .5}
            if d == "new":
                p = rng.randrange(len(full))
                n = rng.choice(names)
                f = (full[p] + "." if p else "") + n
                if not hastest and f == "uvm_test_top":
                    continue
                if rng.random() < .04:
                    n, f = "", "COMP_x"
                s = {"do": d, "ph": ph, "p": p, "n": list(n), "how": rng.choice(["new", "create", "id"]), "none": s["none"]}
                if f not in full or f == "COMP_x":
                    full.append(f)
                if ph == 2:
                    h.append(s)
                    break
            elif d == "lookup":
                f = rng.choice(full[1:] or ["a"])
                base = full[s["c"]]
                s["abs"] = rng.random() < .4
                path = f.split(".")
                if not s["abs"] and base and f.startswith(base + ".") and rng.random() < .8:
                    path = f[len(base) + 1:].split(".")
                elif rng.random() < .3:
                    path[rng.randrange(len(path))] = rng.choice(names)
                s["path"] = [list(x) for x in path]
            elif d == "has":
                s["n"] = list(rng.choice(names))
            elif d == "name" and (s["c"] == 0):
                continue
            h.append({k: v for k, v in s.items() if k in ("do", "ph", "c", "p", "n", "how", "none", "path", "abs", "pat", "fl")
                      and not (k == "pat" and d in ("lookup", "has", "visit", "name", "tops", "topo"))})
        yield {"h": h}


CHECKS = {"C36": Check(Part("Hierarchy", execute, scenarios, mc=["MC_Hierarchy"], gen=gen, gen_cap=(220, 8000)))}
