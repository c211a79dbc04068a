"""FIFO registers on a bus, with auto-prediction or with a predictor (spec FifoReg)."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_WARNING, UVM_COUNT
from uvm.comps.uvm_driver import UVMDriver
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_fifo import UVMRegFIFO
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_FRONTDOOR, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_WRITE, UVM_READ, UVM_CHECK, UVM_NO_CHECK,
                                   UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT)
from uvm.reg.uvm_reg_predictor import UVMRegPredictor
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.tlm1 import UVMAnalysisPort

KIND = {"pw": UVM_PREDICT_WRITE, "pr": UVM_PREDICT_READ, "pd": UVM_PREDICT_DIRECT}


class FItem(UVMSequenceItem):
    def __init__(self, name="fitem"):
        super().__init__(name)
        self.w, self.addr, self.data, self.st = None, None, None, None


class FAdapter(UVMRegAdapter):
    def reg2bus(self, rw):
        it = FItem()
        it.w, it.addr, it.data = rw.kind == UVM_WRITE, rw.addr, rw.data
        return it

    def bus2reg(self, it, rw):
        rw.kind = UVM_WRITE if it.w else UVM_READ
        rw.addr, rw.data, rw.status = it.addr, it.data, UVM_IS_OK


class FDrv(UVMDriver):
    v = None

    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.ap = UVMAnalysisPort("ap", self)

    async def run_phase(self, phase):
        while True:
            got = []
            await self.seq_item_port.get_next_item(got)
            FDrv.v.bus(got[0])
            self.ap.write(got[0])
            self.seq_item_port.item_done()


uvm_object_utils(FItem)
uvm_object_utils(FAdapter)
uvm_component_utils(FDrv)


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev, self.ops, self.rd = scn, scn["cfg"], ev, [], 0

    def bus(self, it):
        if not it.w:
            it.data = self.rd
        self.ops.append({"w": bool(it.w), "v": it.data})

    def build(self, t):
        cfg = self.cfg
        UVMRegBlock.m_roots.clear()
        b = UVMRegBlock("b")
        b.configure(None, "")
        self.map = b.create_map("m", 0, 4, UVM_LITTLE_ENDIAN)
        self.f = UVMRegFIFO("f", cfg["cap"], self.scn["n"], False)
        self.f.build()
        self.f.configure(b)
        self.map.add_reg(self.f, 0x10)
        b.lock_model()
        sqr, drv, ad = UVMSequencer("sqr", t), FDrv("drv", t), FAdapter("ad")
        drv.seq_item_port.connect(sqr.seq_item_export)
        self.map.set_sequencer(sqr, ad)
        self.map.set_auto_predict(1 if cfg["mode"] == "auto" else 0)
        self.map.set_check_on_read(0)
        if cfg["mode"] == "pred":
            p = UVMRegPredictor("p", t)
            p.map, p.adapter = self.map, ad
            drv.ap.connect(p.bus_in)
        self.f.set_compare(UVM_CHECK if cfg["cmp"] else UVM_NO_CHECK)

    async def run(self, t, phase):
        f, srv = self.f, UVMCoreService.get().get_report_server()
        utest.root().set_report_severity_action(UVM_WARNING, UVM_COUNT)
        seen = {}

        def new(i):
            c = srv.get_id_count(i)
            d = c - seen.get(i, 0)
            seen[i] = c
            return d > 0
        for s in self.scn["h"]:
            del self.ops[:]
            d, st, out, self.rd = s["do"], [], [], s.get("v", 0)
            path = UVM_FRONTDOOR if s.get("fd") else UVM_DEFAULT_PATH
            e = {"op": d, "v": s.get("v", 0), "ok": True}
            if d == "set":
                f.set(s["v"])
            elif d == "update":
                await f.update(st, path)
            elif d == "write":
                await f.write(st, s["v"], path)
            elif d == "read":
                await f.read(st, out, path)
            elif d == "mirror":
                await f.mirror(st, UVM_NO_CHECK, path)
            else:
                e["kind"] = s["kind"]
                f.predict(s["v"], -1, KIND[s["kind"]])
            if d in ("update", "write", "read", "mirror"):
                e["ok"] = st[0] == UVM_IS_OK
            if d == "read" and e["ok"]:
                e["val"] = out[0]
            err = new("Needs Update")
            err = new("FIFO Full") or err
            e.update(bus=list(self.ops), err=err, warn=new("MIRROR_MISMATCH"), size=f.size(), get=f.get(), cap=f.capacity())
            self.ev.append(e)


def execute(scn, ev):
    ev.append(dict(scn["cfg"], op="cfg"))
    v = FDrv.v = Run(scn, ev)
    utest.run({"build": v.build, "run": v.run}, ev, seed=scn.get("seed", 0))


def gen(g):
    return {"cfg": g["cfg"], "n": 8, "h": [{k: v for k, v in s.items() if k != "op"} for s in g["h"]]}


def scenarios(rng, tier):
    out = []
    for _ in range(250 if tier == "quick" else 6000):
        n = rng.choice([1, 4, 8, 8, 16, 32])
        top = (1 << n) - 1
        mode, h, model = rng.choice(["auto", "auto", "pred", "pred", "none"]), [], []
        bias = rng.choice([["set", "write", "write"], ["set", "set", "update"], ["read", "write"], ["pred", "pred"]])
        cap = rng.choice([0, 1, 1, 2, 3, 4, 5, 8])
        for _ in range(rng.randint(4, 14 if tier == "quick" else 30)):
            d = rng.choice(["set", "set", "update", "write", "write", "read", "read", "mirror", "pred"] + bias)
            s = {"do": d, "fd": rng.random() < 0.5}
            if d != "update":
                s["v"] = rng.choice([0, top, rng.randint(0, top)])
            if d == "pred":
                s["kind"] = rng.choice(["pw", "pr", "pd"])
            # mostly what the device should return
            if d in ("set", "write") and len(model) < cap:
                model.append(s["v"])
            elif d in ("read", "mirror") and model:
                x = model.pop(0)
                if rng.random() < 0.8:
                    s["v"] = x
            h.append(s)
        out.append({"cfg": {"cap": cap, "mode": mode, "cmp": rng.random() < 0.8}, "n": n, "h": h})
    return out


CHECKS = {"C33": Check(Part("FifoReg", execute, scenarios, mc=["MC_FifoReg"], gen=gen, gen_cap=(200, 20000), owns=[""]))}
