"""Registers of several fields in nested blocks: desired, mirror and device (spec RegModel)."""
import random
from drv import utest
from registry import Part, Check
from uvm.base.uvm_object_globals import UVM_ERROR
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb
from uvm.comps.uvm_driver import UVMDriver
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_cbs import UVMRegCbs, UVMRegCb
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_FRONTDOOR, UVM_BACKDOOR, UVM_PREDICT, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
                                   UVM_WRITE, UVM_CHECK, UVM_NO_CHECK, UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT)
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.seq.uvm_sequencer import UVMSequencer
from drv.reg_field import POL, bits, num

KIND = {"pw": UVM_PREDICT_WRITE, "pr": UVM_PREDICT_READ, "pd": UVM_PREDICT_DIRECT}


class MItem(UVMSequenceItem):
    def __init__(self, name="mitem"):
        super().__init__(name)
        self.o = None


class MAdapter(UVMRegAdapter):
    def reg2bus(self, rw):
        it = MItem()
        it.o = {"w": rw.kind == UVM_WRITE, "addr": rw.addr, "data": rw.data}
        return it

    def bus2reg(self, it, rw):
        rw.data, rw.status = it.o["data"], it.o["st"]


uvm_object_utils(MItem)
uvm_object_utils(MAdapter)


class MDrv(UVMDriver):
    v = None

    async def run_phase(self, phase):
        while True:
            got = []
            await self.seq_item_port.get_next_item(got)
            o = got[0].o
            r = o["addr"] // 16
            ok = MDrv.v.ok()
            if o["w"]:
                MDrv.v.dev(r, True, o["data"], ok, "F")
            else:
                o["data"] = MDrv.v.dev(r, False, 0, ok, "F")
            o["st"] = UVM_IS_OK if ok else UVM_NOT_OK
            self.seq_item_port.item_done()


uvm_component_utils(MDrv)


class MBd(UVMRegBackdoor):
    def __init__(self, v, r):
        super().__init__("bd")
        self.v, self.r = v, r

    async def write(self, rw):
        self.v.dev(self.r, True, rw.value[0], True, "B")
        rw.status = UVM_IS_OK

    async def read(self, rw):
        ok = self.v.ok()
        rw.value[0] = self.v.dev(self.r, False, 0, ok, "B")
        rw.status = UVM_IS_OK if ok else UVM_NOT_OK


class Cb(UVMRegCbs):
    def __init__(self, log, what, n):
        super().__init__("cb")
        self.log, self.what, self.n = log, what, n

    async def pre_write(self, rw):
        self.log.append("pre_write")
        if self.what == "flip":
            rw.value[0] ^= sum(1 << i for i in range(self.n) if i % 3 == 0)
        elif self.what == "abort":
            rw.status = UVM_NOT_OK

    async def post_write(self, rw):
        self.log.append("post_write")

    async def pre_read(self, rw):
        self.log.append("pre_read")

    async def post_read(self, rw):
        self.log.append("post_read")


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev = scn, scn["cfg"], ev
        self.rng = random.Random(scn.get("seed", 0))
        self.bus, self.hooks, self.mis, self.fail = [], [], 0, 0

    def ok(self):
        self.fail -= 1
        return self.fail != 0

    def dev(self, r, w, v, ok, p):
        n = self.cfg["regs"][r]["n"]
        if not w:
            v = self.regs[r].get_mirrored_value()
            if self.rng.random() < 0.4:
                f = self.rng.choice(self.cfg["regs"][r]["fields"])
                v ^= 1 << (f["lsb"] + self.rng.randrange(f["n"]))
        self.bus.append({"w": w, "r": r + 1, "v": bits(v, n) if ok or w else [], "ok": ok, "p": p})
        return v

    def build(self, t):
        UVMRegBlock.m_roots.clear()
        cfg = self.cfg
        self.blks, self.maps, self.regs, self.flds = [], [], [], []
        for i, p in enumerate(cfg["blks"]):
            b = UVMRegBlock("b%d" % i)
            b.configure(self.blks[p - 1] if p else None, "")
            self.blks.append(b)
            self.maps.append(b.create_map("m%d" % i, 0, 8, UVM_LITTLE_ENDIAN))
            if p:
                self.maps[p - 1].add_submap(self.maps[i], 0)
        for r, x in enumerate(cfg["regs"]):
            g = UVMReg("r%d" % r, x["n"])
            g.configure(self.blks[x["blk"] - 1])
            fs = [UVMRegField("f%d" % k) for k in range(len(x["fields"]))]
            order = list(range(len(fs)))
            random.Random(r).shuffle(order)
            for k in order:
                y = x["fields"][k]
                fs[k].configure(g, y["n"], y["lsb"], y["acc"], y["vol"], num(y["rst"]), y["hasrst"], True, False)
                fs[k].set_compare(UVM_CHECK if y["cmp"] else UVM_NO_CHECK)
            self.maps[x["blk"] - 1].add_reg(g, 16 * r)
            (g.set_backdoor if hasattr(g, "set_backdoor") else lambda b: setattr(g, "m_backdoor", b))(MBd(self, r))
            if x["cb"] != "none":
                UVMRegCb.add(g, Cb(self.hooks, x["cb"], x["n"]))
            self.regs.append(g)
            self.flds.append(fs)
        self.blks[0].lock_model()
        sqr, drv = UVMSequencer("sqr", t), MDrv("drv", t)
        drv.seq_item_port.connect(sqr.seq_item_export)
        self.maps[0].set_sequencer(sqr, MAdapter("ad"))
        self.maps[0].set_auto_predict(1 if cfg["auto"] else 0)
        for m in self.maps + [UVMRegMap.backdoor()]:
            m.set_check_on_read(1 if cfg["cor"] else 0)

    async def run(self, t, phase):
        c = UVMReportCatcher("catch")

        def catch():
            if c.get_severity() == UVM_ERROR and "does not match mirrored" in c.get_message():
                self.mis += 1
            return 1
        c.catch = catch
        UVMReportCb.add(None, c)
        for s in self.scn["h"]:
            d = s["do"]
            e = {k: v for k, v in s.items() if k not in ("do", "fail", "bus", "byname", "dp")}
            e["op"] = d
            g = self.regs[s["r"] - 1] if "r" in s else None
            b = self.blks[s["b"] - 1] if "b" in s else None
            v = num(s["v"]) if "v" in s else 0
            acc = d in ("write", "read", "update", "mirror", "bupdate", "bmirror")
            if acc:
                del self.bus[:]
                del self.hooks[:]
                self.mis, self.fail = 0, s.get("fail", 0)
                path = UVM_BACKDOOR if s["path"] == "B" else UVM_DEFAULT_PATH if s.get("dp") else UVM_FRONTDOOR
                st, out = [], []
                chk = UVM_CHECK if s.get("chk") else UVM_NO_CHECK
            if d == "set":
                g.set(v)
            elif d == "fset":
                self.flds[s["r"] - 1][s["f"] - 1].set(v)
            elif d == "reset":
                g.reset(s["kind"])
            elif d == "breset":
                b.reset(s["kind"])
            elif d == "setrst":
                g.set_reset(v, s["kind"])
            elif d == "pred":
                g.predict(v, -1, KIND[s["kind"]], {"F": UVM_FRONTDOOR, "B": UVM_BACKDOOR, "P": UVM_PREDICT}[s["path"]],
                          UVMRegMap.backdoor() if s["path"] == "B" else self.maps[0] if s.get("dp") else None)
            elif d == "write":
                if s.get("byname"):
                    await self.blks[0].write_reg_by_name(st, g.get_name(), v, path)
                else:
                    await g.write(st, v, path)
            elif d == "read":
                await g.read(st, out, path)
                e["val"] = bits(out[0], self.cfg["regs"][s["r"] - 1]["n"])
            elif d == "update":
                await g.update(st, path)
            elif d == "mirror":
                await g.mirror(st, chk, path)
            elif d == "bupdate":
                await b.update(st, path)
            elif d == "bmirror":
                await b.mirror(st, chk, path)
            if acc:
                e.update(bus=list(self.bus), status={UVM_IS_OK: "IS_OK", UVM_NOT_OK: "NOT_OK"}.get(st[0], str(st[0])), err=self.mis > 0)
                if g is not None and self.cfg["regs"][s["r"] - 1]["cb"] != "none":
                    e["hooks"] = list(self.hooks)
            e["des"] = [bits(r.get(), x["n"]) for r, x in zip(self.regs, self.cfg["regs"])]
            e["mir"] = [bits(r.get_mirrored_value(), x["n"]) for r, x in zip(self.regs, self.cfg["regs"])]
            e["needs"] = [bool(r.needs_update()) for r in self.regs]
            e["bneeds"] = [bool(k.needs_update()) for k in self.blks]
            self.ev.append(e)


def execute(scn, ev):
    ev.append(dict(scn["cfg"], op="cfg"))
    v = MDrv.v = Run(scn, ev)
    utest.run({"build": v.build, "run": v.run}, ev, seed=scn.get("seed", 0))


def gen(g):
    return {"cfg": g["cfg"], "h": [{k: v for k, v in s.items() if k not in ("op", "bus")} for s in g["h"]]}


def scenarios(rng, tier):
    out = []
    for k in range(220 if tier == "quick" else 9000):
        nb = rng.choice([1, 1, 2, 3, 4])
        blks = [0] + [rng.randint(1, i) for i in range(1, nb)]
        regs = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([4, 8, 8, 16, 32, 32, 64])
            fields, at = [], rng.choice([0, 0, 1, 3])
            while at < n and len(fields) < 4:
                w = min(rng.choice([1, 1, 2, 3, 5, 8, 16]), n - at)
                vol = rng.random() < 0.1
                fields.append({"lsb": at, "n": w, "acc": rng.choice(POL + ["RW"] * 6 + ["RO", "W1C"]), "vol": vol, "cmp": rng.random() < 0.8,
                               "hasrst": rng.random() < 0.8, "rst": [rng.randint(0, 1) for _ in range(w)]})
                at += w + rng.choice([0, 0, 0, 1, 4])
            regs.append({"n": n, "blk": rng.randint(1, nb), "cb": rng.choice(["none"] * 6 + ["none", "flip", "see", "abort"]), "fields": fields})
        h = []

        def rb(m):
            x = rng.random()
            return [1] * m if x < 0.1 else [0] * m if x < 0.2 else [rng.randint(0, 1) for _ in range(m)]
        for _ in range(rng.randint(3, 10 if tier == "quick" else 20)):
            d = rng.choice(["set", "set", "set", "fset", "reset", "breset", "setrst", "pred", "pred", "write", "write", "write", "read", "read", "update", "update", "update",
                            "mirror", "mirror", "bupdate", "bupdate", "bmirror"])
            r = rng.randint(1, len(regs))
            s = {"do": d}
            if d[0] == "b":
                s["b"] = rng.randint(1, nb)
            else:
                s["r"] = r
            n = regs[r - 1]["n"]
            if d in ("set", "setrst", "pred", "write"):
                s["v"] = rb(n)
            if d == "fset":
                s["f"] = rng.randint(1, len(regs[r - 1]["fields"]))
                s["v"] = rb(regs[r - 1]["fields"][s["f"] - 1]["n"])
            if d in ("reset", "breset", "setrst"):
                s["kind"] = rng.choice(["HARD", "HARD", "SOFT"])
            if d == "pred":
                s["kind"], s["path"] = rng.choice(["pw", "pr", "pd"]), rng.choice("FFBP")
                s["dp"] = rng.random() < 0.5
            if d in ("write", "read", "update", "mirror", "bupdate", "bmirror"):
                s["path"] = rng.choice("FFFB")
                s["dp"] = rng.random() < 0.4
                s["chk"] = rng.random() < 0.6
                s["byname"] = rng.random() < 0.3
                # whether a failed write counts as the first write of a write-once field is not specified
                once = any(f["acc"] in ("W1", "WO1") for x in regs for f in x["fields"])
                s["fail"] = 0 if once else rng.choice([0] * 8 + [1, 1, 2])
            h.append(s)
        out.append({"cfg": {"regs": regs, "blks": blks, "auto": rng.random() < 0.7, "cor": rng.random() < 0.3}, "h": h, "seed": rng.randrange(1 << 20)})
    return out


CHECKS = {"C27": Check(Part("RegModel", execute, scenarios, mc=["MC_RegModel"], gen=gen, gen_cap=(150, 20000), owns=[""]))}
