"""Matching of names wherever the library does it (spec Globs)."""
import itertools
from drv import utest
from registry import Part, Check
from uvm.base.uvm_factory import UVMDefaultFactory
from uvm.base.uvm_globals import uvm_is_match
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_resource import UVMResource
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.macros import uvm_object_utils


class Orig(UVMObject):
    pass


class Over(Orig):
    pass


uvm_object_utils(Orig)
uvm_object_utils(Over)


def answers(op, p, strs, n):
    if op == "is":
        return [bool(uvm_is_match(p, s)) for s in strs]
    if op in ("scope", "strict"):
        r = UVMResource("r", p)
        return [bool(r.match_scope(s)) for s in strs]
    if op == "rdb":
        UVMResourceDb.set(p, "n%d" % n, 1)
        return [UVMResourceDb.get_by_name(s, "n%d" % n, False) is not None for s in strs]
    f = UVMDefaultFactory()
    f.register(Orig.type_id.get())
    f.register(Over.type_id.get())
    if op == "fac":
        f.set_inst_override_by_type(Orig.get_type(), Over.get_type(), p)
        return [isinstance(f.create_object_by_type(Orig.get_type(), s, ""), Over) for s in strs]
    raise ValueError(op)


def execute(scn, ev):
    ev.append({"op": "cfg"})
    utest.quiet()
    for n, s in enumerate(scn["h"]):
        op = s["do"]
        p = "".join(s["p"])
        strs = s["s"]
        r = answers(op, p, strs, n)
        # the resource database is asked for scopes as the resources are
        ev.append({"op": "scope" if op == "rdb" else op, "p": list(p), "s": [list(x) for x in strs], "r": r})


STRS = ["".join(x) for n in range(5) for x in itertools.product("ab.", repeat=n)]


def gen(g):
    p = g[-1]["p"]
    some = STRS[:40] + STRS[40::3]
    return {"h": [{"do": d, "p": p, "s": some} for d in ("is", "scope")]
            + [{"do": "fac", "p": p, "s": STRS[1:40]}, {"do": "rdb", "p": p, "s": STRS[1:40]}]}


ALPHA = "abx_0.[]()"


def string(rng):
    if rng.random() < .5:
        parts = [rng.choice(["top", "env", "a", "ag[0]", "ag[10]", "ag1", "ag10", "drv", "m(1)", "x{2}", "a|b", "t$"]) for _ in range(rng.randint(1, 4))]
        return ".".join(parts)
    return "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 8)))


def scenarios(rng, tier):
    for d in ("is", "fac"):
        yield {"h": [{"do": d, "p": "env.driver", "s": ["env.driver", "e_env.driver", "top.env.driver", "env.driver2", "env.driver.x"]}]}
    # the known finding: the scope of a resource also matches names which only end in it
    yield {"name": "scope-matches-ends", "h": [{"do": "strict", "p": "env.driver", "s": ["e_env.driver"]}]}
    for _ in range(800 if tier == "quick" else 20000):
        s = string(rng)
        c = rng.random()
        if c < .55:        # a glob made from the string
            p = list(s)
            for _ in range(rng.randint(0, 3)):
                if p:
                    i = rng.randrange(len(p))
                    j = rng.randint(i, min(len(p), i + 4))
                    w = rng.choice("***??+")
                    p[i:(i + 1 if w == "?" else j)] = [w]
            p = [x for x in p if x not in "$"]
        elif c < .7:       # any glob
            p = [rng.choice(ALPHA + "**?+") for _ in range(rng.randint(0, 6))]
        else:              # a regular expression
            t = [x for x in s if x.isalnum() or x in "._"]
            i = rng.randint(0, len(t))
            j = rng.randint(i, len(t))
            q = []
            for x in t[i:j]:
                q += ["\\", "."] if x == "." and rng.random() < .5 else ["."] if rng.random() < .1 else [x]
                if rng.random() < .15:
                    q.append(rng.choice("*+"))
            p = ["/"] + (["^"] if rng.random() < .4 else []) + q + (["$"] if rng.random() < .4 else []) + ["/"]
            if p == ["/", "/"]:
                p = ["/", "a", "/"]
        if len(p) > 0 and p[0] == "/" and not (len(p) > 1 and p[-1] == "/"):
            continue
        strs = {s, string(rng), "z" + s, s + "z", s[1:], s[:-1], s.replace(".", "-"), ""}
        for _ in range(6):
            t = list(s)
            if t:
                i = rng.randrange(len(t))
                t[i:i + rng.randint(0, 2)] = rng.choice(["", "a", ".", "zz"])
            strs.add("".join(t))
        strs = sorted(strs)
        ns = [x for x in strs if x]
        yield {"h": [{"do": "is", "p": p, "s": strs}, {"do": "scope", "p": p, "s": strs}]
               + [{"do": d, "p": p, "s": ns} for d in rng.sample(["fac", "rdb"], 1) if p]}


CHECKS = {"C40": Check(Part("Globs", execute, scenarios, mc=["MC_Globs"], gen=gen, gen_cap=(1000, 20000)))}
