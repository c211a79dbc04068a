"""Test runs with command-line arguments.  Every scenario imports uvm afresh, in its own process."""
from registry import Part, Check

SEVS = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
ACTS = ["UVM_DISPLAY", "UVM_RM_RECORD", "UVM_LOG", "UVM_COUNT", "UVM_EXIT", "UVM_CALL_HOOK", "UVM_STOP"]
COUNTED = ["INVLCMDARGS", "INVLCMDVERB", "UVM_CMDLINE_PROC", "MULTTST", "MULTTIMOUT", "MULTMAXQUIT"]
PHASES = ["connect", "end_of_elaboration", "start_of_simulation", "extract", "check", "report"]


def execute(scn, ev):
    import os
    import sys
    import cocotb
    cocotb.argv = ["prog"] + scn["args"]
    ev.append({"op": "cfg", "args": [a for a in cocotb.argv if a], "test": scn["test"], "deft": 0})
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(dn, 1)
    import fakesim
    import uvm
    from cocotb.triggers import Timer
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_report_catcher import UVMReportCatcher, CAUGHT
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.comps.uvm_test import UVMTest
    from uvm.macros.uvm_object_defines import uvm_component_utils
    from uvm.base import uvm_object_globals as G
    try:
        from uvm.base.uvm_report_catcher import UVMReportCb
    except ImportError:
        from uvm.base.uvm_report_server import UVMReportCb
    refatal = any("uvm_set_severity" in a and a.endswith("UVM_FATAL") for a in scn["args"])
    sev_of = {getattr(G, s): s for s in SEVS}
    cs = UVMCoreService.get()
    root = cs.get_root()
    srv = cs.get_report_server()
    clp = UVMCmdlineProcessor.get_inst()
    from uvm.macros import UVM_DEFAULT_TIMEOUT
    ev[0]["deft"] = UVM_DEFAULT_TIMEOUT
    warns = {k: 0 for k in COUNTED}
    seen = {"OBJTN_TRC": 0, "PH/TRC/STRT": 0, "DUMPARGS": 0}
    probe = []

    class Catch(UVMReportCatcher):
        def catch(self):
            ident = self.get_id()
            if self.get_message() == "probe":
                act = self.get_action()
                probe.append((sev_of[self.get_severity()], [a for a in ACTS if act & getattr(G, a)]))
            elif ident in warns and not self.get_message().startswith("Applying"):
                warns[ident] += 1
            elif ident in seen:
                seen[ident] = 1
            elif self.get_severity() == G.UVM_FATAL and not refatal:
                ev.append({"op": "crash", "what": self.get_message()[:200]})
            return CAUGHT

    UVMReportCb.add(None, Catch("catch"))
    comps = {}

    def observe(ops):
        for o in ops:
            k = o["op"]
            if k == "msg":
                del probe[:]
                comps[o["c"]].uvm_report(getattr(G, o["sev"]), o["id"], "probe", o["v"])
                r, act = probe[0] if probe else ("none", [])
                ev.append(dict(o, r=r, act=act))
            elif k == "cfgget":
                v = []
                ok = UVMConfigDb.get(comps[o["c"]], "", o["f"], v)
                r = "none" if not ok else ("s:" + v[0] if isinstance(v[0], str) else "i:%d" % v[0])
                ev.append(dict(o, r=r))
            elif k == "settimeout":
                root.set_timeout(o["v"], o["o"])
                ev.append(dict(o, r=root.phase_timeout))
            elif k == "timeout":
                ev.append(dict(o, r=root.phase_timeout))
            elif k == "setquit":
                srv.set_max_quit_count(o["v"], o["o"])
                ev.append(dict(o, r=srv.get_max_quit_count()))
            elif k == "quit":
                ev.append(dict(o, r=srv.get_max_quit_count()))
            elif k == "matches":
                r = []
                if o["kind"] == "prefix":
                    m = o["l"]
                else:
                    # "$$" and ".*?" mean the same with and without their last character (known finding C41-regex-end)
                    m = "/" + ("^" if o["a"] else "") + o["l"].replace("+", "\\+").replace("*", "\\*").replace(".", "\\.") \
                        + ("" if o.get("strict") else "$" if o["z"] else ".*?") + ("$" if o["z"] else "") + "/"
                n = clp.get_arg_matches(m, r)
                ev.append(dict(o, r=r if n == len(r) else ["count"]))
            elif k == "values":
                r = []
                n = clp.get_arg_values(o["l"], r)
                ev.append(dict(o, r=r if n == len(r) else ["count"]))
            elif k == "value":
                r = []
                n = clp.get_arg_value(o["l"], r)
                ev.append(dict(o, n=n, r=r))
            elif k == "args":
                ev.append(dict(o, r=list(clp.get_args())))
            elif k == "plus":
                ev.append(dict(o, r=list(clp.get_plusargs())))
            elif k == "uvm":
                ev.append(dict(o, r=list(clp.get_uvm_args())))

    obs = scn["obs"]

    class CTA(UVMComponent):
        pass

    class CTB(CTA):
        pass

    class CTC(CTA):
        pass

    class CTD(CTA):
        pass
    for c in (CTA, CTB, CTC, CTD):
        uvm_component_utils(c)

    def add(c, p, ty, comp):
        comps[c] = comp
        ev.append({"op": "new", "c": c, "p": p, "ty": ty, "r": comp.get_type_name()})

    class VTest(UVMTest):
        def build_phase(self, phase):
            super().build_phase(phase)
            add("uvm_test_top", "", "", self)
            for c in scn["tree"]:
                p, name = c["c"].rsplit(".", 1)
                add(c["c"], p, c["ty"], globs[c["ty"]].type_id.create(name, comps[p]))
            observe(obs.get("build", []))

        async def run_phase(self, phase):
            phase.raise_objection(self)
            ev.append({"op": "phase", "ph": "run"})
            last = 0
            observe(obs.get("run", []))
            for t, o in obs.get("times", []):
                await Timer(t - last)
                last = t
                ev.append({"op": "time", "t": t})
                observe(o)
            phase.drop_objection(self)

    class VTest2(VTest):
        pass
    globs = dict(CTA=CTA, CTB=CTB, CTC=CTC, CTD=CTD)

    def mk(ph):
        def f(self, phase):
            ev.append({"op": "phase", "ph": ph})
            observe(obs.get(ph, []))
        return f
    for ph in PHASES:
        setattr(VTest, ph + "_phase", mk(ph))
    for c in (VTest, VTest2):
        uvm_component_utils(c)

    observe(obs.get("start", []))

    async def main():
        await uvm.run_test(scn["test"])
    st, v, _ = fakesim.run(main, seed=0)
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})
        return
    ev.append({"op": "warns", "r": warns})
    ev.append({"op": "traces", "o": seen["OBJTN_TRC"], "p": seen["PH/TRC/STRT"], "d": seen["DUMPARGS"]})


TREE = [{"c": "uvm_test_top.env", "ty": "CTA"}, {"c": "uvm_test_top.env.a", "ty": "CTA"}, {"c": "uvm_test_top.env.b", "ty": "CTB"},
        {"c": "uvm_test_top.a", "ty": "CTA"}, {"c": "uvm_test_top.env.a.a", "ty": "CTC"}]
IDS = ["ID1", "ID2", "X"]


def probes(rng, tree, n):
    cs = ["uvm_test_top"] + [c["c"] for c in tree]
    return [{"op": "msg", "c": rng.choice(cs), "id": rng.choice(IDS), "sev": rng.choice(SEVS),
             "v": rng.choice([0, 100, 200, 300, 400, 500])} for _ in range(n)]


def observations(rng, tree):
    o = {}
    cs = ["uvm_test_top"] + [c["c"] for c in tree]
    for p in ["build"] + PHASES + ["run"]:
        o[p] = probes(rng, tree, rng.choice([2, 4, 8]))
    o["times"] = [(t, probes(rng, tree, 6)) for t in (5, 15, 25, 35, 45)]
    o["build"] += [{"op": "cfgget", "c": c, "f": f} for c in cs for f in ("f", "g")]
    o["build"] += [{"op": "timeout"}, {"op": "quit"}]
    if rng.random() < .5:
        o["connect"] += [{"op": "settimeout", "v": rng.randint(1000, 5000), "o": rng.randint(0, 1)} for _ in range(2)]
    if rng.random() < .5:
        o["connect"] += [{"op": "setquit", "v": rng.randint(3, 9), "o": rng.randint(0, 1)} for _ in range(2)]
    return o


def queries(rng, args):
    lits = ["+uvm", "+UVM_", "uvm", "+", "-", "=", "+uvm_set_config_int=", "x", "5", "NO", "+UVM_TIMEOUT="]
    out = [{"op": "args"}, {"op": "plus"}, {"op": "uvm"}]
    for _ in range(6):
        l = rng.choice(lits)
        if args and rng.random() < .5:
            a = rng.choice(args)
            i = rng.randrange(len(a))
            l = a[i:i + rng.randint(1, 6)]
        if any(c in l for c in "/\\^$|?[](){}"):
            continue
        k = rng.choice(["prefix", "re", "re", "values", "value"])
        if k in ("values", "value"):
            out.append({"op": k, "l": l})
        elif k == "prefix":
            out.append({"op": "matches", "kind": k, "l": l, "a": 0, "z": 0})
        else:
            out.append({"op": "matches", "kind": k, "l": l, "a": rng.randint(0, 1), "z": rng.randint(0, 1)})
    return out


def gen(h):
    import random
    args = [e["a"] for e in h]
    rng = random.Random(repr(args))
    return {"args": args, "test": "VTest", "tree": TREE, "obs": dict(observations(rng, TREE), start=queries(rng, args))}


def scenarios(rng, tier):
    # the known finding: a regular expression loses its last character
    out = [{"name": "regex-end", "args": ["+other=5"], "test": "VTest", "tree": [],
            "obs": {"start": [{"op": "matches", "kind": "re", "l": "+other=", "a": 1, "z": 1, "strict": 1}]}}]
    pats = ["*", "uvm_test_top", "uvm_test_top.*", "*.a", "uvm_test_top.env", "*env*", "uvm_test_top.env.?", "nowhere", "uvm_test_top.env.a"]
    verbs = ["NONE", "UVM_LOW", "MEDIUM", "UVM_HIGH", "FULL", "UVM_DEBUG"]
    ids = IDS + ["_ALL_"]

    def one():
        k = rng.randrange(11)
        p = rng.choice(pats)
        if k <= 2:
            v = rng.choice(verbs + (["LOUD"] if rng.random() < .2 else []))
            ph = rng.choice(["", "build", "connect", "run", "run", "extract", "report", "end_of_elaboration", "time,0", "time,10",
                             "time,20", "time,30", "time,40"])
            s = "%s,%s,%s,%s" % (p, rng.choice(ids), v, ph)
            if rng.random() < .05:
                s = rng.choice([p, s + ",1,2", "a,b", "a,b,UVM_LOW"])
            return "+uvm_set_verbosity=" + s
        if k <= 4:
            a = "|".join(rng.sample(ACTS, rng.randint(1, 3))) if rng.random() < .7 else "UVM_NO_ACTION"
            s = "%s,%s,%s,%s" % (p, rng.choice(ids), rng.choice(SEVS + ["_ALL_"]), a)
            if rng.random() < .1:
                s = rng.choice([p, s + ",1", "*,X,UVM_BAD,UVM_LOG", "*,X,UVM_INFO,UVM_BAD", "*,X,UVM_INFO,UVM_LOG|BAD"])
            return "+uvm_set_action=" + s
        if k <= 6:
            s = "%s,%s,%s,%s" % (p, rng.choice(ids), rng.choice(SEVS + ["_ALL_"]), rng.choice(SEVS))
            if rng.random() < .1:
                s = rng.choice([p, s + ",1", "*,X,UVM_BAD,UVM_INFO", "*,X,UVM_INFO,UVM_BAD", "*,X,_ALL_,_ALL_"])
            return "+uvm_set_severity=" + s
        if k == 7:
            f = rng.choice("fg")
            val = rng.choice(["5", "17", "-3", "0", "0x1f", "'hA0", "'b101", "0b11", "'o17", "'d99", "123456"])
            s = "%s,%s,%s" % (p, f, val)
            if rng.random() < .1:
                s = rng.choice([p, p + ",f", s + ",x"])
            return rng.choice(["+uvm_set_config_int=", "+uvm_set_config_int=", "+UVM_SET_CONFIG_INT="] if False else ["+uvm_set_config_int="]) + s
        if k == 8:
            s = "%s,%s,%s" % (p, rng.choice("fg"), rng.choice(["hello", "a b", "5", "x*y"]))
            if rng.random() < .1:
                s = rng.choice([p, p + ",f", s + ",x"])
            return "+uvm_set_config_string=" + s
        o, v = rng.choice([("CTA", "CTB"), ("CTA", "CTC"), ("CTA", "CTD"), ("CTB", "CTC"), ("CTB", "CTD"), ("CTC", "CTD")])
        if k == 9:
            return "+uvm_set_inst_override=" + (rng.choice(["CTA", "CTA,CTB,x,y"]) if rng.random() < .1 else "%s,%s,%s" % (o, v, p))
        return "+uvm_set_type_override=" + (rng.choice(["CTA", "CTA,CTB,2", "CTA,CTB,1,1"]) if rng.random() < .1 else
                                            "%s,%s%s" % (o, v, rng.choice(["", "", ",0", ",1"])))
    for _ in range(150 if tier == "quick" else 2500):
        args = [one() for _ in range(rng.choice([1, 3, 5, 8, 12]))]
        if rng.random() < .4:
            args.append("+UVM_VERBOSITY=" + rng.choice(verbs + ["150", "LOUD", "0"]))
        if rng.random() < .3:
            args += ["+UVM_TIMEOUT=%d%s" % (rng.randint(1000, 9999), rng.choice(["", ",YES", ",NO", ",maybe"]))
                     for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .3:
            args += ["+UVM_MAX_QUIT_COUNT=%d%s" % (rng.randint(1, 9), rng.choice(["", ",YES", ",NO", ",maybe"]))
                     for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .2:
            args += ["+UVM_TESTNAME=" + rng.choice(["VTest", "VTest2"]) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .2:
            args.append(rng.choice(["+UVM_OBJECTION_TRACE", "+UVM_CONFIG_DB_TRACE", "+UVM_RESOURCE_DB_TRACE", "+UVM_DUMP_CMDLINE_ARGS"]))
        if rng.random() < .1 and not any("uvm_set_verbosity" in a for a in args):
            args.append("+UVM_PHASE_TRACE")
        if rng.random() < .3:
            args += rng.sample(["-f", "+other=5", "-uvmNote", "+Uvm", "xuvm5", "", "+UV", "-UVM_x=NO", "name with space"], 3)
        rng.shuffle(args)
        # the order of conflicting settings due at time 0 is not specified
        vs = [a for a in args if a.startswith("+uvm_set_verbosity=")]
        for i, a in enumerate(args):
            if a in vs and a.endswith(",time,0") and sum(b.split(",")[1:2] == a.split(",")[1:2] for b in vs) > 1:
                args[i] = a[:-len("time,0")]
        tree = [c for c in TREE if c["c"] != "uvm_test_top.a" or rng.random() < .7]
        out.append({"args": args, "test": rng.choice(["VTest", "VTest", "VTest2"]), "tree": tree,
                    "obs": dict(observations(rng, tree), start=queries(rng, [a for a in args if a]))})
    return out


CHECKS = {
    "C41": Check(Part("Cmdline", execute, scenarios, mc=["MC_Cmdline"], gen=gen, gen_cap=(60, 2000), wall=30)),
}
