"""Resources and the resource pool (spec Resource)."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger
from drv import utest
from registry import Part, Check
from vlib import S
from uvm.base.uvm_resource import UVMResource, UVMResourcePool, PRI_HIGH, PRI_LOW
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_ERROR


class Acc:
    def get_full_name(self):
        return "acc"


def execute(scn, ev):
    ch = {}

    def st(s):
        ch[s] = list(s)
        return s
    ev.append({"op": "cfg", "ch": ch})

    async def main():
        utest.quiet()
        pool = UVMResourcePool.get()
        res = []
        waiting = set()
        nw = [0]

        def log(e):
            e["t"] = utest.now()
            ev.append(e)

        def rid(r):
            for i, x in enumerate(res):
                if x is r:
                    return i + 1
            return 0 if r is None else -1

        errs = utest.errors

        def value(v):
            return ("v", v) if isinstance(v, int) and v % 3 == 0 else v

        def cv(v):
            return S(v) if not isinstance(v, tuple) else "t" + S(v[1])

        async def waiter(w, r):
            log({"op": "wcall", "w": w, "r": rid(r)})
            await r.wait_modified()
            log({"op": "wret", "w": w})
            waiting.discard(rid(r))
        inpool = set()
        for s in scn["steps"]:
            d = s["do"]
            acc = Acc() if s.get("acc") else None
            r = res[(s["r"] - 1) % len(res)] if "r" in s and res else None
            if d == "new":
                res.append(UVMResource(s["name"], st(s["scope"])))
                log({"op": "new", "name": s["name"], "scope": s["scope"]})
            elif d == "dbset":
                UVMResourceDb.set(st(s["scope"]), s["name"], value(s["v"]), acc)
                q = pool.lookup_name(s["scope"].replace("*", "x").replace("?", "x"), s["name"], None, False)
                new = [x for x in q if rid(x) == -1]
                res.append(new[-1] if new else None)
                inpool.add(id(res[-1]))
                log({"op": "dbset", "name": s["name"], "scope": s["scope"], "v": cv(value(s["v"]))})
            elif d in ("set", "ovr"):
                if r is None or id(r) in inpool:
                    continue
                inpool.add(id(r))
                r.set() if d == "set" else r.set_override()
                log({"op": d, "r": rid(r)})
            elif d == "prec" and r is not None:
                r.precedence = s["n"]
                log({"op": "prec", "r": rid(r), "n": s["n"]})
            elif d == "prio" and r is not None and id(r) in inpool:
                pool.set_priority_name(r, PRI_HIGH if s["hi"] else PRI_LOW)
                log({"op": "prio", "r": rid(r), "hi": s["hi"]})
            elif d == "ro" and r is not None:
                r.set_read_only() if s["b"] else r.set_read_write()
                log({"op": "ro", "r": rid(r), "b": s["b"]})
            elif d == "write" and r is not None:
                n = errs()
                r.write(value(s["v"]), acc)
                log({"op": "write", "r": rid(r), "v": cv(value(s["v"])), "err": errs() == n + 1})
            elif d == "read" and r is not None:
                log({"op": "read", "r": rid(r), "v": cv(r.read(acc))})
                log({"op": "isro", "r": rid(r), "b": bool(r.is_read_only())})
            elif d == "look":
                q = pool.lookup_name(st(s["scope"]), s["name"], None, s.get("rpt", False))
                log({"op": "look", "scope": s["scope"], "name": s["name"], "ids": [rid(x) for x in q]})
            elif d == "byname":
                x = UVMResourceDb.get_by_name(st(s["scope"]), s["name"], s.get("rpt", False))
                log({"op": "byname", "scope": s["scope"], "name": s["name"], "id": rid(x)})
            elif d == "lscope":
                q = pool.lookup_scope(st(s["scope"]))
                q = [q[i] for i in range(len(q))]
                log({"op": "lscope", "scope": s["scope"], "ids": [rid(x) for x in q]})
                q = UVMResourcePool.sort_by_precedence(q)
                log({"op": "sort", "scope": s["scope"], "ids": [rid(x) for x in q]})
            elif d == "dbread":
                arr = []
                ok = UVMResourceDb.read_by_name(st(s["scope"]), s["name"], arr, acc)
                log({"op": "dbread", "scope": s["scope"], "name": s["name"], "ok": bool(ok), "v": cv(arr[0]) if arr else "-"})
            elif d == "dbwrite":
                n = errs()
                ok = UVMResourceDb.write_by_name(st(s["scope"]), s["name"], value(s["v"]), acc)
                log({"op": "dbwrite", "scope": s["scope"], "name": s["name"], "v": cv(value(s["v"])), "ok": bool(ok),
                     "err": errs() == n + 1})
            elif d == "wait" and r is not None and rid(r) not in waiting:
                nw[0] += 1
                waiting.add(rid(r))
                await cocotb.start(waiter(nw[0], r))
            elif d == "tick":
                await Timer(1, "NS")
            elif d == "delta":
                await NullTrigger()
        for x in list(res):
            if x is not None:
                log({"op": "read", "r": rid(x), "v": cv(x.read())})
        for n in ("n", "nn", "m"):
            for sc in ("a", "b", "x.y"):
                x = UVMResourceDb.get_by_name(st(sc), n, False)
                log({"op": "byname", "scope": sc, "name": n, "id": rid(x)})
        await Timer(2, "NS")
        log({"op": "end"})
    s, v, _ = fakesim.run(main, seed=scn["seed"])
    if s == "exc":
        raise v
    if s != "ok":
        ev.append({"op": "hang"})


def gen(h):
    return {"seed": 1, "steps": list(h)}


def scenarios(rng, tier):
    pats = ["*", "a", "b", "x.y", "x.*", "a*", "?", "/^x/", "/y$/", "*.y", "b.*", ""]
    lits = ["a", "b", "ab", "x.y", "x.z", "b.x", "", "top.x.y"]
    for _ in range(700 if tier == "quick" else 12000):
        steps = []
        nn = rng.sample(["n", "nn", "m"], rng.choice([1, 1, 2, 3]))
        ps = rng.sample(pats, rng.choice([2, 4, 8]))
        few = rng.random() < .2     # one or two resources, watched by waiters
        for k in range(rng.randint(5, 40)):
            d = "new" if few and k < 2 else rng.choice(["ro", "write", "write", "wait", "wait", "tick", "tick", "delta"]) if few else rng.choices(["new", "dbset", "set", "ovr", "prec", "prio", "ro", "write", "read", "look", "byname", "lscope",
                             "dbread", "dbwrite", "wait", "tick", "delta"],
                            [3, 3, 3, 2, 1, 1, .7, 3, 2, 2, 2, 1.5, 2, 2, 1, 1, 1])[0]
            s = {"do": d, "acc": rng.random() < .5}
            if d in ("new", "dbset"):
                s.update(name=rng.choice(nn), scope=rng.choice(ps), v=rng.randint(0, 6))
                if d == "dbset" and "/" in s["scope"]:
                    s["scope"] = "*"
            elif d in ("look", "byname", "lscope", "dbread", "dbwrite"):
                s.update(name=rng.choice(nn + ["zz"] * (rng.random() < .1)), scope=rng.choice(lits), v=rng.randint(0, 6), rpt=rng.random() < .3)
            else:
                s.update(r=rng.randint(1, 6), n=rng.choice([999, 1000, 1001, 5]), hi=rng.random() < .5, b=rng.random() < .6,
                         v=rng.randint(0, 4))
            steps.append(s)
        yield {"seed": rng.randrange(1 << 30), "steps": steps}


CHECKS = {"C18": Check(Part("Resource", execute, scenarios, mc=["MC_Resource"], gen=gen, gen_cap=(1000, 20000)))}
