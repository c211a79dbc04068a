"""Ports, exports and implementations of every TLM interface (spec Ports)."""
import inspect
import random
from drv import utest
from registry import Part, Check
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import UVM_WARNING, UVM_ERROR, UVM_COUNT
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, THROW, CAUGHT
from uvm.macros.uvm_tlm_defines import uvm_analysis_imp_decl
from uvm import tlm1
from uvm.tlm1 import uvm_ports, uvm_exports, uvm_imps

BASE = {"put": "Put", "get": "Get", "peek": "Peek", "get_peek": "GetPeek", "transport": "Transport", "master": "Master", "slave": "Slave"}
IFS = [p + b for b in BASE for p in ("", "blocking_", "nonblocking_")]
CAM = {p + b: "UVM" + c + BASE[b] for b in BASE for p, c in (("", ""), ("blocking_", "Blocking"), ("nonblocking_", "NonBlocking"))}
SFX = {s: uvm_analysis_imp_decl(s) for s in ("_a", "_b")}
SIDES = ("put", "get", "peek", "transport")


def methods(i):
    """The methods of an interface (used to aim the scenarios; the specification has its own table)."""
    if i == "analysis":
        return ["write"]
    b = i.split("_")[-1] if not i.endswith("get_peek") else "get_peek"
    parts = {"get_peek": ["get", "peek"], "master": ["put", "get", "peek"], "slave": ["put", "get", "peek"]}.get(b, [b])
    out = []
    for p in parts:
        if not i.startswith("nonblocking"):
            out.append(p)
        if not i.startswith("blocking"):
            out += ["nb_transport"] if p == "transport" else ["try_" + p, "can_" + p]
    return out


class Sink:
    """What an implementation provides: every method, recording the calls."""
    def __init__(self, run, comp, obj):
        self.run, self.comp, self.obj = run, comp, obj

    def rec(self, m, v, sfx=""):
        self.run.log.append({"c": self.comp, "sfx": sfx, "o": self.obj, "m": m, "v": v})

    async def put(self, t):
        self.rec("put", t)

    def try_put(self, t):
        self.rec("try_put", t)
        return t + 1

    def can_put(self):
        self.rec("can_put", self.run.v)
        return self.run.v + 1

    def out(self, m, arg):
        self.rec(m, self.run.v)
        arg.append(self.run.v + 1)
        return True

    async def get(self, arg):
        self.out("get", arg)

    async def peek(self, arg):
        self.out("peek", arg)

    def try_get(self, arg):
        return self.out("try_get", arg)

    def try_peek(self, arg):
        return self.out("try_peek", arg)

    def can_get(self):
        self.rec("can_get", self.run.v)
        return self.run.v + 1

    def can_peek(self):
        self.rec("can_peek", self.run.v)
        return self.run.v + 1

    async def transport(self, req, rsp):
        self.rec("transport", req)
        rsp.append(req + 1)

    def nb_transport(self, req, rsp):
        self.rec("nb_transport", req)
        rsp.append(req + 1)
        return True

    def write(self, t):
        self.rec("write", t)

    def write_a(self, t):
        self.rec("write", t, "_a")

    def write_b(self, t):
        self.rec("write", t, "_b")


class Comp(UVMComponent):
    sink = None


for _m, _f in list(vars(Sink).items()):
    if _m not in ("__init__", "rec", "out") and not _m.startswith("__"):
        def _mk(m, f):
            if inspect.iscoroutinefunction(f):
                async def call(self, *a):
                    return await getattr(self.sink, m)(*a)
            else:
                def call(self, *a):
                    return getattr(self.sink, m)(*a)
            return call
        setattr(Comp, _m, _mk(_m, _f))


class Catch(UVMReportCatcher):
    run = None

    def catch(self):
        if self.get_id() not in ("Connection Error", "Connection Warning"):
            return THROW
        self.run.msgs.append((self.get_severity(), self.get_client().get_full_name()))
        return CAUGHT


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev = scn, scn["cfg"], ev
        self.log, self.msgs, self.v = [], [], 0

    def build(self, t):
        cat = Catch("cat")
        cat.run = self
        UVMReportCb.add(None, cat)
        comps = []
        for c, p in enumerate(self.cfg["comps"]):
            k = Comp("c%d" % c, comps[p - 1] if p else t)
            k.sink = Sink(self, c + 1, "imp")
            comps.append(k)
        self.nodes = []
        for i, n in enumerate(self.cfg["nodes"]):
            c, nm, f, k = comps[n["comp"] - 1], "n%d" % i, n["if"], n["kind"]
            if f == "analysis":
                x = {"port": tlm1.UVMAnalysisPort, "export": tlm1.UVMAnalysisExport, "imp": SFX.get(n["sfx"], tlm1.UVMAnalysisImp)}[k](nm, c)
            elif k == "imp":
                T = getattr(uvm_imps, CAM[f] + "Imp")
                if f.endswith(("master", "slave")):
                    x = T(nm, c, Sink(self, n["comp"], "req"), Sink(self, n["comp"], "rsp"))
                else:
                    x = T(nm, c)
            else:
                T = getattr(uvm_ports, CAM[f] + "Port") if k == "port" else \
                    getattr(uvm_exports, CAM[f] + "Export", None) or getattr(uvm_exports, "uvm_%s_export" % f)
                x = T(nm, c, n["min"], n["max"])
            x.get_comp().set_report_severity_action(UVM_WARNING, UVM_COUNT)
            self.nodes.append(x)
        for s in self.scn["h"]:
            if s["do"] == "connect":
                del self.msgs[:]
                a = self.nodes[s["a"] - 1]
                a.connect(self.nodes[s["b"] - 1] if s["b"] else None)
                err = [m for m in self.msgs if m[0] == UVM_ERROR]
                self.ev.append({"op": "connect", "a": s["a"], "b": s["b"], "err": bool(err), "warn": any(m[0] == UVM_WARNING for m in self.msgs)})
        del self.msgs[:]

    def num(self, x):
        return 1 + self.nodes.index(x)

    async def run(self, t, phase):
        names = [x.get_full_name() for x in self.nodes]

        def peers(f):
            d = {}
            f(d)
            return sorted(self.num(p.get_port()) for p in d.values())
        errs = [m[1] for m in self.msgs if m[0] == UVM_ERROR]
        self.ev.append({"op": "elab", "size": [x.size() for x in self.nodes], "errs": [errs.count(n) for n in names],
                        "lst": [[self.num(x.get_if(i)) for i in range(x.size())] for x in self.nodes],
                        "by": [peers(x.get_connected_to) for x in self.nodes], "to": [peers(x.get_provided_to) for x in self.nodes]})
        for s in self.scn["h"]:
            if s["do"] == "connect":
                continue
            x = self.nodes[s["n"] - 1]
            e = {k: v for k, v in s.items() if k != "do"}
            e["op"] = s["do"]
            if s["do"] == "set_if":
                if 0 <= s["i"] < x.size():
                    x.set_if(s["i"])
            elif x.size() or s["m"] == "write":
                del self.log[:]
                self.v, m, out = s["v"], s["m"], []
                f = getattr(x, m)
                if m in ("put", "try_put", "write"):
                    r = f(s["v"])
                elif m.startswith("can_"):
                    r = f()
                elif "transport" in m:
                    r = f(s["v"], out)
                else:
                    r = f(out)
                if m in ("put", "get", "peek", "transport"):
                    r = await r
                # what the caller sees: an output argument, or the value returned
                e["ret"] = 0 if m == "write" else out[0] if out else s["v"] + 1 if m == "put" else r if r is not None else -1
                if out and m.startswith(("try_", "nb_")) and r is not True:
                    e["ret"] = -1
                e["log"] = list(self.log)
            else:
                continue
            self.ev.append(e)


def execute(scn, ev):
    ev.append(dict(scn["cfg"], op="cfg"))
    v = Run(scn, ev)
    utest.run({"build": v.build, "run": v.run}, ev, seed=scn.get("seed", 0))


def aim(rng, cfg, h):
    """Calls through every node."""
    out = []
    for n, x in enumerate(cfg["nodes"]):
        ms = methods(x["if"])
        rng.shuffle(ms)
        for m in ms[:4]:
            out.append({"do": "call", "n": n + 1, "m": m, "v": rng.randrange(1000)})
            if rng.random() < 0.2:
                out.append({"do": "set_if", "n": n + 1, "i": rng.randrange(3)})
                out.append({"do": "call", "n": n + 1, "m": m, "v": rng.randrange(1000)})
    return h + out


def gen(g):
    h = [{k: v for k, v in s.items() if k in ("do", "a", "b")} for s in g["h"]]
    return {"cfg": g["cfg"], "h": aim(random.Random(len(h)), g["cfg"], h)}


def scenarios(rng, tier):
    out = []
    for _ in range(500 if tier == "quick" else 12000):
        comps = [0]
        for _ in range(rng.randint(1, 6)):
            comps.append(rng.choice([1, 1, len(comps), rng.randint(1, len(comps))]))
        ana = rng.random() < 0.35
        base = rng.choice(list(BASE))
        nodes, imps = [], set()
        for _ in range(rng.randint(2, 9)):
            k, c = rng.choice(["port", "export", "imp", "imp"]), rng.randint(1, len(comps))
            f = "analysis" if ana and rng.random() < 0.95 else rng.choice([x for x in IFS if x.endswith(base)] * 3 + IFS)
            sfx = rng.choice(["", "_a", "_b"]) if f == "analysis" and k == "imp" else ""
            if f == "analysis":
                mn, mx = 0, -1
            else:
                mn = rng.choice([0, 1, 1, 1, 2])
                mx = rng.choice([1, 1, 2, 3, -1])
            if k == "imp":
                mn = mx = 1
            nodes.append({"kind": k, "comp": c, "if": f, "min": mn, "max": mx, "sfx": sfx})
        h, rank = [], list(range(len(nodes)))
        legal = lambda a, b: not (nodes[a]["kind"] == "imp" or (nodes[a]["kind"] == "export" and nodes[b]["kind"] == "port"))
        for _ in range(rng.randint(1, 12)):
            a, b = rng.randrange(len(nodes)), rng.randrange(len(nodes))
            if rng.random() < 0.03:
                h.append({"do": "connect", "a": a + 1, "b": 0})
            elif not legal(a, b) and rng.random() < 0.8:
                continue
            elif a < b or not legal(a, b) or a == b or nodes[b]["kind"] == "imp":  # no cycles of ports
                h.append({"do": "connect", "a": a + 1, "b": b + 1})
        cfg = {"comps": comps, "nodes": nodes}
        out.append({"cfg": cfg, "h": aim(rng, cfg, h)})
    return out


CHECKS = {"C11": Check(Part("Ports", execute, scenarios, mc=["MC_Ports"], gen=gen, gen_cap=(250, 20000), owns=[""]))}
