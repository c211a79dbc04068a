"""TLM FIFO, analysis FIFO and mailbox (spec Fifo)."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger
from registry import Part, Check
from vlib import S, L
import uvm
from uvm.base.uvm_mailbox import UVMMailbox
from uvm.tlm1.uvm_tlm_fifos import UVMTLMFIFO, UVMTLMAnalysisFIFO
from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp
from uvm.base.uvm_component import UVMComponent

BLOCK = ("put", "get", "peek")


def exports(m):
    """The exports through which method m can be called."""
    what = "put" if m.endswith("put") else "peek" if m.endswith("peek") else "get"
    kind = "blocking_" if m in BLOCK else "nonblocking_"
    names = ["put"] if what == "put" else ["get_peek", what]
    return [k + x + "_export" for x in names for k in ("", kind)]


class Tap(UVMComponent):
    """Analysis subscriber; also the parent of everything."""

    def __init__(self, name, parent, kind, log):
        super().__init__(name, parent)
        self.kind, self.log = kind, log
        self.imp = UVMAnalysisImp("imp", self)

    def write(self, t):
        self.log.append("%s:%s" % (self.kind, S(t)))


def execute(scn, ev):
    kind, size, via = scn["kind"], scn["size"], scn["via"]
    ap, calls = [], []

    async def main():
        if kind == "mailbox":
            f = UVMMailbox(size)
            pass
        else:
            if kind == "afifo":
                f = UVMTLMAnalysisFIFO("f", None)
            else:
                f = UVMTLMFIFO("f", None, size)
            for k in ("put", "get"):
                t = Tap("tap_" + k, None, k, ap)
                p = getattr(f, k + "_ap")
                p.connect(t.imp)
                t.imp.resolve_bindings()
                p.resolve_bindings()

        def to(m):
            """What method m is called on: the queue, or one of its exports."""
            if not via:
                return f
            calls.append(m)
            t = exports(m)
            return getattr(f, t[(scn["seed"] + len(calls)) % len(t)])

        def take():
            r = list(ap)
            del ap[:]
            return r

        async def blocking(p, m, x):
            ev.append({"op": "call", "p": p, "m": m, "x": x})
            out = []
            if m == "put":
                await to(m).put(x)
                r = x
            else:
                r = await getattr(to(m), m)(out)
                if via and r is None:
                    r = out[-1] if out else None
            ev.append({"op": "ret", "p": p, "m": m, "x": S(r), "out": L(out), "ap": take()})
            busy.discard(p)

        def obs():
            if kind == "mailbox":
                n = f.num()
                o = {"op": "obs", "used": S(n), "empty": S(n == 0), "full": S(size > 0 and n == size),
                     "can_put": S(f.can_put()), "can_peek": S(f.can_get()),
                     "can_get": None, "size": S(size)}
                o["can_get"] = S(n > 0 and not any(m == "get" for m in blocked()))
            else:
                o = {"op": "obs", "used": S(f.used()), "empty": S(f.is_empty()), "full": S(f.is_full()),
                     "can_put": S(to("try_put").can_put()), "can_get": S(to("try_get").can_get()),
                     "can_peek": S(to("try_peek").can_peek()),
                     "size": S(f.size())}
            ev.append(o)

        def blocked():
            c = {}
            for e in ev:
                if e["op"] == "call":
                    c[e["p"]] = e["m"]
                elif e["op"] == "ret":
                    c.pop(e["p"], None)
            return list(c.values())

        busy = set()
        n = 0
        for s in scn["steps"]:
            d = s["do"]
            if d == "settle":
                await Timer(1, "NS")
                ev.append({"op": "settled"})
                obs()
            elif d == "delta":
                await NullTrigger()
            elif d in BLOCK:
                if s["p"] in busy:
                    continue
                busy.add(s["p"])
                x = ""
                if d == "put":
                    n += 1
                    x = s.get("x") or "v%d" % n
                await cocotb.start(blocking(s["p"], d, x))
            elif d == "obs":
                obs()
            else:
                out = list(s.get("pre", []))
                np = len(out)
                x = ""
                ok = "-"
                if d in ("try_put", "write"):
                    n += 1
                    x = s.get("x") or "v%d" % n
                if d == "write":
                    if kind != "afifo":
                        continue
                    (f.analysis_export if via else f).write(x)
                elif d == "flush":
                    if kind == "mailbox":
                        continue
                    f.flush()
                elif d == "try_put":
                    ok = S(bool(to(d).try_put(x)))
                else:
                    ok = S(bool(getattr(to(d), d)(out)))
                ev.append({"op": "nb", "m": d, "x": x, "ok": ok, "out": L(out[np:]), "ap": take()})
        await Timer(1, "NS")
        ev.append({"op": "settled"})
        obs()

    ev.append({"op": "cfg", "size": 0 if kind == "afifo" else size, "tap": "F" if kind == "mailbox" else "T"})
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def gen(h):
    steps = []
    k = hash(str(h))
    gap = k % 3        # settle after every call / every other / never
    for i, s in enumerate(h[1:]):
        steps.append(s)
        if gap == 0 or (gap == 1 and (k >> i) & 1):
            steps.append({"do": "settle"})
    n = h[0]["n"]
    kind = "mailbox" if k % 4 == 3 else "fifo" if (n or k % 2) else "afifo"
    return {"kind": kind, "size": n, "via": (k >> 7) & 1 and kind != "mailbox", "seed": k & 0xffff, "steps": steps}


def scenarios(rng, tier):
    for i in range(400 if tier == "quick" else 6000):
        kind = rng.choice(["fifo", "fifo", "mailbox", "afifo"])
        steps = []
        w = [rng.random() for _ in range(9)]
        for _ in range(rng.randint(5, 40)):
            d = rng.choices(["put", "get", "peek", "try_put", "try_get", "try_peek", "settle", "delta", "write"], w)[0]
            if rng.random() < 0.04:
                d = "flush"
            s = {"do": d, "p": rng.randint(1, 6)}
            if d in ("try_get", "try_peek") and rng.random() < .4:
                s["pre"] = ["old"]
            if d in ("put", "try_put") and rng.random() < .15:
                s["x"] = "dup"
            steps.append(s)
        yield {"kind": kind, "size": rng.choice([0, 1, 1, 2, 3, 5, 8]), "via": kind != "mailbox" and rng.random() < .4,
               "seed": rng.randrange(1 << 30), "steps": steps}


CHECKS = {"C10": Check(Part("Fifo", execute, scenarios, mc=["MC_Fifo"], gen=gen, gen_cap=(2000, 40000)))}
