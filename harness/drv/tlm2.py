"""Generic transports: sockets, time annotations and payloads (spec Tlm2)."""
import cocotb
from cocotb.triggers import Timer
from drv import utest
from drv.utest import now
from registry import Part, Check
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import UVM_ERROR
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, THROW, CAUGHT
from uvm.macros import uvm_component_utils
from uvm import tlm2
from uvm.tlm2 import uvm_tlm2_time, uvm_tlm_time
from uvm.tlm2.uvm_tlm2_ifs import uvm_tlm_sync_e, uvm_tlm_phase_e
from uvm.tlm2 import uvm_tlm2_generic_payload as gp

KIND = {"bi": "BInitiatorSocket", "bI": "BPassthroughInitiatorSocket", "bT": "BPassthroughTargetSocket", "bt": "BTargetSocket",
        "ni": "NbInitiatorSocket", "nI": "NbPassthroughInitiatorSocket", "nT": "NbPassthroughTargetSocket", "nt": "NbTargetSocket",
        "bP": "BTransportPort", "bE": "BTransportExport", "bM": "BTransportImp",
        "fP": "NbTransportFwPort", "fE": "NbTransportFwExport", "fM": "NbTransportFwImp",
        "wP": "NbTransportBwPort", "wE": "NbTransportBwExport", "wM": "NbTransportBwImp"}
COUNT = [0]


class Catch(UVMReportCatcher):
    """Counts errors and keeps them from ending the run."""
    def catch(self):
        if self.get_severity() == UVM_ERROR:
            COUNT[0] += 1
            return CAUGHT
        return THROW


def errors():
    return COUNT[0]


TIMES = [uvm_tlm2_time.UVMTLMTime, uvm_tlm_time.UVMTLMTime]


class Comp(UVMComponent):
    rr = node = None

    def nb(self, m, t, p, d):
        r = self.rr
        r.log.append({"c": self.node, "m": m, "o": [int(t is r.t), int(p is r.p), int(d is r.d)]})
        return getattr(uvm_tlm_sync_e, "UVM_TLM_" + r.ret)

    def nb_transport_fw(self, t, p, delay):
        return self.nb("fw", t, p, delay)

    def nb_transport_bw(self, t, p, delay):
        return self.nb("bw", t, p, delay)

    async def b_transport(self, t, delay):
        c = self.rr.calls.get(id(t))
        self.rr.ev.append({"op": "brecv", "id": c[0] if c else -1, "c": self.node, "o": [int(c is not None), int(c is not None and c[2] is delay)]})
        if c and c[1]:
            await Timer(c[1], "ns")
            delay.incr(c[1], 1, 1e-9)


uvm_component_utils(Comp)


class Run:
    def __init__(self, ev):
        self.ev, self.log, self.calls = ev, [], {}
        self.t = self.p = self.d = self.ret = None


def milli(x):
    v = x * 1000
    r = round(v)
    return r if abs(v - r) < 1e-3 * max(1, abs(r)) * 1e-3 + 1e-3 else -999999


def execute(scn, ev):
    nodes = scn["nodes"]
    ev.append({"op": "cfg", "nodes": [{"n": x["n"], "k": x["k"]} for x in nodes]})
    run = Run(ev)
    sock = {}
    tms, pls = {}, {}

    def build(t):
        comps = {(): t}
        for x in nodes:
            p = ()
            for name in x["at"]:
                q = p + (name,)
                if q not in comps:
                    comps[q] = Comp(name, comps[p])
                    comps[q].rr, comps[q].node = run, "."
                p = q
            c = comps[p]
            imp = c
            if x.get("sep"):
                imp = Comp(x["n"] + "_imp", c)
                imp.rr = run
            imp.node = x["n"]
            cls = getattr(tlm2, "UVMTLM" + KIND[x["k"]])
            if x["k"][1] in "it" and x["k"] != "bi":
                sock[x["n"]] = cls(x["n"], c, imp) if x.get("sep") else cls(x["n"], c)
            elif x["k"][1] == "M":
                sock[x["n"]] = cls(x["n"], imp)
            else:
                sock[x["n"]] = cls(x["n"], c)
        connect()

    def connect():
        for o in scn["ops"]:
            k = o["op"]
            e0 = errors()
            if k == "connect":
                sock[o["a"]].connect(sock[o["b"]])
                ev.append(dict(o, err=errors() - e0))

    async def call(o, first):
        await Timer(o["at"] - first, "ns") if o["at"] > first else None
        e0 = errors()
        obj = gp.UVMTLMGenericPayload("t%d" % o["id"])
        d = None
        if not o["null"]:
            d = TIMES[o["id"] % 2]("d")
            d.incr(o["d"], 1, 1e-15)
        run.calls[id(obj)] = (o["id"], o["dur"], d)
        if o["null"]:
            await sock[o["s"]].b_transport(obj, None)
            ev.append({"op": "bstart", "id": o["id"], "s": o["s"], "null": 1, "at": now(), "dur": o["dur"], "d": o["d"], "err": errors() - e0})
            return
        ev.append({"op": "bstart", "id": o["id"], "s": o["s"], "null": 0, "at": now(), "dur": o["dur"], "d": o["d"], "err": 0})
        await sock[o["s"]].b_transport(obj, d)
        ev.append({"op": "bend", "id": o["id"], "at": now(), "d": milli(d.get_realtime(1, 1e-15) / 1000)})

    async def body(t, phase):
        tasks = []
        for o in scn["ops"]:
            k = o["op"]
            e0 = errors()
            if k == "nb":
                run.t, run.p = gp.UVMTLMGenericPayload("t"), uvm_tlm_phase_e.BEGIN_REQ
                run.d = TIMES[len(ev) % 2]("d")
                run.ret = o["ret"]
                del run.log[:]
                f = sock[o["s"]].nb_transport_fw if o["dir"] == "fw" else sock[o["s"]].nb_transport_bw
                r = f(run.t, run.p, None if o["null"] else run.d)
                ev.append(dict(o, r=r.name[len("UVM_TLM_"):] if isinstance(r, uvm_tlm_sync_e) else "?",
                               recv=list(run.log), err=errors() - e0))
            elif k == "bstart":
                tasks.append(cocotb.start_soon(call(o, now())))
            elif k == "tnew":
                c = TIMES[o["cl"]]
                if o["set"]:
                    c.set_time_resolution(o["res"] * 1e-15)
                    tms[o["id"]] = c("t%d" % o["id"])
                else:
                    tms[o["id"]] = c("t%d" % o["id"], o["res"] * 1e-15)
                c.set_time_resolution(1e-12)
                ev.append(o)
            elif k in ("incr", "decr"):
                a = [o["x"], o["sc"]] + ([] if k == "incr" and o["u"] == 1000000 else [o["u"] * 1e-15])
                getattr(tms[o["id"]], k)(*a)
                ev.append(dict(o, err=errors() - e0))
            elif k == "setabs":
                tms[o["id"]].set_abstime(o["x"], o["u"] * 1e-15)
                ev.append(o)
            elif k == "treset":
                tms[o["id"]].reset()
                ev.append(o)
            elif k == "getabs":
                ev.append(dict(o, r=milli(tms[o["id"]].get_abstime(o["u"] * 1e-15))))
            elif k == "getreal":
                a = [o["sc"]] + ([] if o["u"] == 1000000 else [o["u"] * 1e-15])
                ev.append(dict(o, r=milli(tms[o["id"]].get_realtime(*a))))
            elif k == "pnew":
                pls[o["id"]] = gp.UVMTLMGenericPayload("p%d" % o["id"])
                ev.append(o)
            elif k == "pcmd":
                p = pls[o["id"]]
                if o["how"] == 0 and o["v"] != "IGNORE":
                    (p.set_read if o["v"] == "READ" else p.set_write)()
                else:
                    p.set_command(getattr(gp, "UVM_TLM_%s_COMMAND" % o["v"]))
                ev.append(o)
            elif k == "paddr":
                pls[o["id"]].set_address(o["v"])
                ev.append(o)
            elif k == "pget":
                p = pls[o["id"]]
                ev.append(dict(o, cmd=p.get_command().name.split("_")[2], rd=int(p.is_read()), wr=int(p.is_write()), addr=p.get_address()))
        if tasks:
            await Timer(scn.get("wait", 500), "ns")
        ev.append({"op": "end"})

    errs = []

    async def runph(t, phase):
        if nodes:
            ev.append({"op": "elab", "err": errors() - errs[0]})
        await body(t, phase)

    def build2(t):
        build(t)
        errs.append(errors())
    utest.run({"build": build2, "run": runph}, ev, scn.get("seed", 0), pre=lambda: UVMReportCb.add(None, Catch("catch")))


def chain(f, a, b, tag="", start="env"):
    """Nodes of a chain: initiator below a passthrough initiators, target below b passthrough targets."""
    out = []
    up = [start]
    left = ["%si%d" % (tag, j) for j in range(a + 1)]
    right = ["%st%d" % (tag, j) for j in range(b + 1)]
    seq = []
    for j in range(a, -1, -1):
        seq.append((f + ("i" if j == a else "I"), up + left[:j + 1]))
    for j in range(b + 1):
        seq.append((f + ("t" if j == b else "T"), up + right[:j + 1]))
    for i, (k, at) in enumerate(seq):
        out.append({"n": "%sn%d" % (tag, i + 1), "k": k, "at": at})
    return out


def norm(o, i):
    o = {k: v for k, v in o.items() if k != "do"}
    if o["op"] == "tnew":
        o.update(cl=0, set=i % 2)
    if o["op"] == "pcmd":
        o["how"] = i % 2
    return o


def gen(h):
    nodes = chain(h[0]["nodes"][0]["k"][0], h[0]["a"], h[0]["b"]) if h[0]["nodes"] else []
    ops = []
    for i, e in enumerate(h[1:]):
        if e["do"] in ("brecv", "bend"):
            continue
        ops.append(norm(e, i))
        if e["do"] in ("incr", "decr", "setabs", "treset"):
            ops.append({"op": "getabs", "id": 1, "u": 1000000})
        if e["do"] in ("pcmd", "paddr", "pnew"):
            ops.append({"op": "pget", "id": 1})
    return {"nodes": nodes, "ops": ops}


def scenarios(rng, tier):
    for i in range(150 if tier == "quick" else 3000):
        c = rng.random()
        nodes, ops = [], []
        if c < .6:
            # several chains, with separate implementations here and there
            for k in range(rng.choice([1, 2, 3])):
                f = rng.choice("bn")
                n = chain(f, rng.randint(0, 3), rng.randint(0, 3), "abc"[k])
                for x in n:
                    x["sep"] = int(x["k"][1] in "it" and x["k"] != "bi" and rng.random() < .4)
                cons = [{"op": "connect", "a": x["n"], "b": y["n"]} for x, y in zip(n, n[1:])]
                if f == "b" and rng.random() < .4:      # a second initiator of the first target-side socket
                    tgt = next(x for x in n if x["k"][1] in "Tt")
                    y = {"n": n[0]["n"] + "x", "k": "bi", "at": ["env", "abc"[k] + "other"]}
                    nodes.append(y)
                    cons.append({"op": "connect", "a": y["n"], "b": tgt["n"]})
                nodes += n
                ops += cons
            if rng.random() < .5:                      # plain ports
                for f in rng.sample("bfw", rng.randint(1, 3)):
                    m = {"n": f + "M", "k": f + "M", "at": ["env", f + "t", f + "u"], "sep": rng.randint(0, 1)}
                    e = {"n": f + "E", "k": f + "E", "at": ["env", f + "t"]}
                    p = {"n": f + "P", "k": f + "P", "at": ["env", f + "i"]}
                    q = {"n": f + "Q", "k": f + "P", "at": ["env", f + "i", f + "j"]}
                    nodes += [m, e, p, q]
                    ops += [{"op": "connect", "a": a["n"], "b": b["n"]} for a, b in ((q, p), (p, e), (e, m))]
            rng.shuffle(ops)
            drop = rng.random() < .15
            if drop:
                ops.pop(rng.randrange(len(ops)))
            if rng.random() < .25:                      # a connection which cannot be made
                fams = rng.choice(["bb", "nn", "bn", "nb"])
                a, b = rng.choice("iITt"), rng.choice("iITt")
                ok = fams[0] == fams[1] and ((a in "iI" and b in "ITt") or (a == "T" and b in "Tt"))
                if not ok:
                    nodes += [{"n": "x1", "k": fams[0] + a, "at": ["env", "xa"]}, {"n": "x2", "k": fams[1] + b, "at": ["env", "xb"]}]
                    ops.insert(rng.randrange(len(ops) + 1), {"op": "connect", "a": "x1", "b": "x2"})
            if not drop:
                k = 0
                at = 0
                for _ in range(rng.randint(4, 16)):
                    x = rng.choice([x for x in nodes if x["n"][0] != "x"])
                    f, r = x["k"][0], x["k"][1]
                    null = int(rng.random() < .1)
                    if f == "b":
                        k += 1
                        ops.append({"op": "bstart", "id": k, "s": x["n"], "null": null, "at": at, "dur": rng.randint(0, 40),
                                    "d": rng.randint(0, 50) * 1000})
                        at += rng.choice([0, 0, 3, 10])
                    else:
                        d = "bw" if f == "w" else "fw" if f == "f" or r == "i" else rng.choice(["fw", "bw"])
                        ops.append({"op": "nb", "s": x["n"], "dir": d, "null": null, "ret": rng.choice(["ACCEPTED", "UPDATED", "COMPLETED"])})
        else:
            vs = {}
            for v in range(rng.randint(1, 3)):
                res = rng.choice([1000, 10000, 1000000])
                cl = rng.randint(0, 1)
                vs[v] = (res, cl)
                ops.append({"op": "tnew", "id": v, "res": res, "cl": cl, "set": rng.randint(0, 1)})
            n = {v: 0 for v in vs}
            for p in range(rng.randint(0, 2)):
                ops.append({"op": "pnew", "id": p})
            for _ in range(rng.randint(5, 25)):
                v = rng.choice(list(vs))
                res, cl = vs[v]
                u = rng.choice([x for x in (1000, 10000, 1000000) if x >= res])
                sc = rng.choice([1, 10])
                k = rng.choice(["incr", "incr", "incr", "decr", "setabs", "treset", "getabs", "getreal", "getabs", "getreal"])
                if cl == 1 and k in ("decr", "setabs", "getabs"):
                    k = "getreal" if k == "getabs" else "incr"
                if k in ("incr", "decr"):
                    if n[v] > 7:
                        continue
                    n[v] += 1
                    ops.append({"op": k, "id": v, "x": rng.choice([-1, 0, 1, 2, 5, 20]) * sc, "sc": sc, "u": u})
                    if res == 1000 and u > 1000 and sc == 10:
                        ops[-1]["x"] += 3
                        if ops[-1]["x"] < 0:
                            ops[-1]["x"] = 3
                elif k == "setabs":
                    ops.append({"op": k, "id": v, "x": rng.randint(0, 20), "u": u})
                elif k == "treset":
                    ops.append({"op": k, "id": v})
                elif k == "getabs":
                    ops.append({"op": k, "id": v, "u": rng.choice([1000, 1000000])})
                else:
                    u2 = rng.choice([1000, 1000000])
                    ops.append({"op": k, "id": v, "u": u2, "sc": 1 if u2 == 1000 else sc})
            pls = [o["id"] for o in ops if o["op"] == "pnew"]
            for p in pls:
                for _ in range(rng.randint(1, 6)):
                    ops.append(rng.choice([{"op": "pcmd", "id": p, "v": rng.choice(["READ", "WRITE", "IGNORE"]), "how": rng.randint(0, 1)},
                                           {"op": "paddr", "id": p, "v": rng.randint(0, 1 << 30)}, {"op": "pget", "id": p}]))
                ops.append({"op": "pget", "id": p})
        yield {"nodes": nodes, "ops": ops, "seed": rng.randrange(1000)}


CHECKS = {
    "C39": Check(Part("Tlm2", execute, scenarios, mc=["MC_Tlm2"], gen=gen, gen_cap=(150, 3000), wall=30)),
}
