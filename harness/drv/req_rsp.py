"""Request/response channels (spec ReqRsp)."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger
from registry import Part, Check
from vlib import S, L
from uvm.base.uvm_component import UVMComponent
from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp
from uvm.tlm1.uvm_tlm_req_rsp import UVMTLMReqRspChannel

BLOCK = ("put", "get", "peek")
def exports(side, m):
    """The exports through which method m of one side can be called."""
    nm = {"req": "request", "rsp": "response"}[side]
    what = "put" if m.endswith("put") else "peek" if m.endswith("peek") else "get"
    own = "master" if (side == "req") == (what == "put") else "slave"
    kind = "blocking_" if m in BLOCK else "nonblocking_"
    names = ["put_" + nm] if what == "put" else ["get_peek_" + nm, what + "_" + nm]
    names.append(own)
    return [k + x + "_export" for x in names for k in ("", kind)]


class Tap(UVMComponent):
    def __init__(self, name, parent, log):
        super().__init__(name, parent)
        self.log = log
        self.imp = UVMAnalysisImp("imp", self)

    def write(self, t):
        self.log.append("put:%s" % S(t))


def execute(scn, ev):
    ap = {"req": [], "rsp": []}

    async def main():
        args = {} if scn["dflt"] else {"request_fifo_size": scn["req"], "response_fifo_size": scn["rsp"]}
        ch = UVMTLMReqRspChannel("ch", None, **args)
        ch.connect_phase(None)
        for s, p in (("req", ch.request_ap), ("rsp", ch.response_ap)):
            t = Tap("tap_" + s, None, ap[s])
            p.connect(t.imp)
            t.do_resolve_bindings()
        ch.do_resolve_bindings()

        def take(s):
            o = "rsp" if s == "req" else "req"
            r = {"ap": list(ap[s]), "other": list(ap[o])}
            del ap["req"][:], ap["rsp"][:]
            return r

        def exp(s, m, k):
            t = exports(s, m)
            return getattr(ch, t[k % len(t)])

        async def blocking(s, p, m, x, k):
            ev.append({"op": "call", "s": s, "p": p, "m": m, "x": x})
            out = []
            if m == "put":
                await exp(s, m, k).put(x)
                r = x
            else:
                await getattr(exp(s, m, k), m)(out)
                r = out[-1] if out else None
            ev.append(dict(take(s), op="ret", s=s, p=p, m=m, x=S(r), out=L(out)))
            busy.discard(p)

        def obs(k):
            ev.append({"op": "obs", **{s: {m: bool(getattr(exp(s, m, k), m)()) for m in ("can_put", "can_get", "can_peek")} for s in ("req", "rsp")}})
        busy, n = set(), 0
        for s in scn["steps"]:
            d = s["do"]
            if d == "settle":
                await Timer(1, "NS")
                ev.append({"op": "settled"})
                obs(s.get("k", 0))
            elif d == "delta":
                await NullTrigger()
            else:
                x, k = "", s.get("k", 0)
                if d.endswith("put"):
                    n += 1
                    x = s.get("x") or "v%d" % n
                if d in BLOCK:
                    if s["p"] in busy:
                        continue
                    busy.add(s["p"])
                    await cocotb.start(blocking(s["s"], s["p"], d, x, k))
                else:
                    out = []
                    ok = S(bool(getattr(exp(s["s"], d, k), d)(x if x else out)))
                    ev.append(dict(take(s["s"]), op="nb", s=s["s"], m=d, x=x, ok=ok, out=L(out)))
        await Timer(1, "NS")
        ev.append({"op": "settled"})
        obs(1)

    ev.append({"op": "cfg", "req": scn["req"], "rsp": scn["rsp"]})
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def gen(h):
    steps, k = [], hash(str(h))
    for i, s in enumerate(h[1:]):
        steps.append(dict(s, k=(k >> i) & 7))
        if k % 3 == 0 or (k % 3 == 1 and (k >> i) & 1):
            steps.append({"do": "settle", "k": i})
    return {"req": h[0]["req"], "rsp": h[0]["rsp"], "dflt": h[0]["req"] == h[0]["rsp"] == 1, "seed": k & 0xffff, "steps": steps}


def scenarios(rng, tier):
    for _ in range(300 if tier == "quick" else 6000):
        steps = []
        w = [rng.random() for _ in range(8)]
        for _ in range(rng.randint(5, 50)):
            d = rng.choices(["put", "get", "peek", "try_put", "try_get", "try_peek", "settle", "delta"], w)[0]
            s = {"do": d, "s": rng.choice(["req", "rsp"]), "p": rng.randint(1, 6), "k": rng.randrange(20)}
            if d.endswith("put") and rng.random() < .15:
                s["x"] = "dup"
            steps.append(s)
        a, b = rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([0, 1, 1, 2, 4])
        yield {"req": a, "rsp": b, "dflt": a == b == 1 and rng.random() < .5, "seed": rng.randrange(1 << 30), "steps": steps}


CHECKS = {"C12": Check(Part("ReqRsp", execute, scenarios, mc=["MC_ReqRsp"], gen=gen, gen_cap=(500, 20000), owns=[""]))}
