"""A predictor fed with observed bus operations; indirect registers (spec Predictor)."""
import random
from drv import utest
from drv.reg_field import POL, bits, num
from drv.reg_map import EN
from registry import Part, Check
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.comps.uvm_driver import UVMDriver
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
from uvm.reg.uvm_reg_model import UVM_FRONTDOOR, UVM_IS_OK, UVM_WRITE, UVM_READ, UVM_CHECK, UVM_NO_CHECK
from uvm.reg.uvm_reg_predictor import UVMRegPredictor
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.tlm1 import UVMAnalysisPort, UVMAnalysisImp
from uvm.base.uvm_component import UVMComponent


class PItem(UVMSequenceItem):
    def __init__(self, name="pitem"):
        super().__init__(name)
        self.w = self.addr = self.data = self.be = None


class PAdapter(UVMRegAdapter):
    def reg2bus(self, rw):
        it = PItem()
        it.w, it.addr, it.data, it.be = rw.kind == UVM_WRITE, rw.addr, rw.data, -1
        return it

    def bus2reg(self, it, rw):
        rw.kind = UVM_WRITE if it.w else UVM_READ
        rw.addr, rw.data, rw.status = it.addr, it.data, UVM_IS_OK
        if it.be != -1:
            rw.byte_en = it.be


class PDrv(UVMDriver):
    v = None

    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.ap = UVMAnalysisPort("ap", self)

    async def run_phase(self, phase):
        while True:
            got = []
            await self.seq_item_port.get_next_item(got)
            PDrv.v.bus(got[0])
            self.ap.write(got[0])
            self.seq_item_port.item_done()


class Pred(UVMRegPredictor):
    def pre_predict(self, rw):
        PDrv.v.pre.append(PDrv.v.num(rw.element))


class Sub(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.imp = UVMAnalysisImp("imp", self)

    def write(self, rw):
        v = PDrv.v
        r = v.num(rw.element)
        v.pub.append({"r": r, "w": rw.kind == UVM_WRITE, "v": bits(rw.value[0], v.cfg["regs"][r - 1]["n"])})


uvm_object_utils(PItem)
uvm_object_utils(PAdapter)
for _c in (PDrv, Pred, Sub):
    uvm_component_utils(_c)


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev = scn, scn["cfg"], ev
        self.pre, self.pub, self.ops, self.rd = [], [], [], []

    def num(self, g):
        return 1 + self.regs.index(g)

    def bus(self, it):
        if not it.w:
            it.data = num(self.rd.pop(0)) if self.rd else 0
        self.ops.append({"a": it.addr, "w": bool(it.w), "d": bits(it.data, self.wid)})

    def build(self, t):
        cfg = self.cfg
        UVMRegBlock.m_roots.clear()
        self.blks, self.maps, self.regs = [], [], []
        for i, m in enumerate(cfg["maps"]):
            b = UVMRegBlock("b%d" % i)
            b.configure(self.blks[m["par"] - 1] if m["par"] else None, "")
            self.blks.append(b)
            self.maps.append(b.create_map("map%d" % i, m["base"], m["nb"], EN[m["en"]], m["ba"]))
        for i, m in enumerate(cfg["maps"]):
            if m["par"]:
                self.maps[m["par"] - 1].add_submap(self.maps[i], m["off"])
        ind = cfg["ind"][0] if cfg["ind"] else None
        for r, x in enumerate(cfg["regs"]):
            if ind and r + 1 == ind["data"]:
                self.regs.append(UVMRegIndirectData("r%d" % r, x["n"]))
                continue
            g = UVMReg("r%d" % r, x["n"])
            m = x["map"] or cfg["regs"][ind["data"] - 1]["map"]  # registers of the table live beside the data register
            g.configure(self.blks[m - 1])
            for k, y in enumerate(x["fields"]):
                f = UVMRegField("f%d" % k)
                f.configure(g, y["n"], y["lsb"], y["acc"], y["vol"], 0, False, True, False)
                f.set_compare(UVM_CHECK if y["cmp"] else UVM_NO_CHECK)
            self.regs.append(g)
        if ind:
            m = cfg["regs"][ind["idx"] - 1]["map"]
            self.regs[ind["data"] - 1].configure(self.regs[ind["idx"] - 1], [self.regs[k - 1] for k in ind["tbl"]], self.blks[m - 1])
        for r, x in enumerate(cfg["regs"]):
            if x["map"]:
                self.maps[x["map"] - 1].add_reg(self.regs[r], x["off"], x["rights"])
        self.blks[0].lock_model()
        sqr, drv, ad = UVMSequencer("sqr", t), PDrv("drv", t), PAdapter("ad")
        drv.seq_item_port.connect(sqr.seq_item_export)
        self.maps[0].set_sequencer(sqr, ad)
        for m in self.maps:
            m.set_auto_predict(0)
            m.set_check_on_read(1 if cfg["cor"] else 0)
        p, s = Pred("p", t), Sub("s", t)
        p.map, p.adapter = self.maps[0], ad
        drv.ap.connect(p.bus_in)
        p.reg_ap.connect(s.imp)
        self.ap = drv.ap

    async def run(self, t, phase):
        srv = UVMCoreService.get().get_report_server()
        seen = {}

        def new(i):
            c = srv.get_id_count(i)
            d = c - seen.get(i, 0)
            seen[i] = c
            return d > 0
        for s in self.scn["h"]:
            for q in (self.pre, self.pub, self.ops):
                del q[:]
            e = {k: v for k, v in s.items() if k != "do"}
            e["op"] = s["do"]
            if s["do"] == "obs":
                it = PItem("i")
                it.w, it.addr, it.data = s["w"], s["a"], num(s["d"])
                it.be = -1 if all(s["be"]) else num(s["be"])
                self.ap.write(it)
            elif s["do"] == "set":
                self.regs[s["r"] - 1].set(num(s["v"]))
            else:
                g = self.regs[self.cfg["ind"][0]["tbl"][s["k"] - 1] - 1]
                st, out = [], []
                self.wid = s["wid"]
                # what the device returns, part by part
                self.rd = [s["v"][i:i + self.wid] for i in range(0, len(s["v"]), self.wid)]
                if s["w"]:
                    await g.write(st, num(s["v"]), UVM_FRONTDOOR)
                    e["val"] = s["v"]
                else:
                    await g.read(st, out, UVM_FRONTDOOR)
                    e["val"] = bits(out[0], len(s["v"]))
                e["bus"] = list(self.ops)
            e.update(pub=list(self.pub), pre=list(self.pre), coll=new("REG_PREDICT_COLLISION"), mis=new("RegModel"),
                     ierr=bool(self.cfg["ind"]) and new(self.regs[self.cfg["ind"][0]["data"] - 1].get_full_name()))
            n = [x["n"] for x in self.cfg["regs"]]
            skip = self.cfg["ind"][0]["data"] if self.cfg["ind"] else 0
            e["mir"] = [[0] * k if i + 1 == skip else bits(r.get_mirrored_value(), k) for i, (r, k) in enumerate(zip(self.regs, n))]
            e["des"] = [[0] * k if i + 1 == skip else bits(r.get(), k) for i, (r, k) in enumerate(zip(self.regs, n))]
            self.ev.append(e)


def execute(scn, ev):
    ev.append(dict(scn["cfg"], op="cfg"))
    v = PDrv.v = Run(scn, ev)
    utest.run({"build": v.build, "run": v.run}, ev, seed=scn.get("seed", 0))
    ev.append({"op": "check", "pending": UVMCoreService.get().get_report_server().get_id_count("PENDING REG ITEMS") > 0})


def gen(g):
    return {"cfg": g["cfg"], "h": [{k: v for k, v in s.items() if k != "op"} for s in g["h"]]}


def phys(maps, m, base, n):
    """Addresses of the parts of an n-byte register (used to aim the scenarios only)."""
    mp = maps[m - 1]
    cnt, mult = (n - 1) // mp["nb"] + 1, mp["nb"] if mp["ba"] else 1
    loc = [base + ((i if mp["en"] == 1 else cnt - 1 - i) * mult) for i in range(cnt)]
    if not mp["par"]:
        return [x + mp["base"] for x in loc]
    k = (mp["nb"] - 1) // maps[mp["par"] - 1]["nb"] + 1
    return [a for x in loc for a in phys(maps, mp["par"], mp["off"] + x * k, mp["nb"])]


def width(maps, m):
    mp = maps[m - 1]
    return mp["nb"] if not mp["par"] else min(mp["nb"], width(maps, mp["par"]))


def fields(rng, n):
    out, at = [], rng.choice([0, 0, 1, 3])
    while at < n and len(out) < 4:
        w = min(rng.choice([1, 1, 2, 3, 5, 8, 9, 16]), n - at)
        out.append({"lsb": at, "n": w, "acc": rng.choice(POL + ["RW"] * 12), "vol": False, "cmp": rng.random() < 0.8, "hasrst": False, "rst": [0] * w})
        at += w + rng.choice([0, 0, 0, 1, 4])
    return out


def scenarios(rng, tier):
    out = []
    for _ in range(260 if tier == "quick" else 6000):
        maps = [{"par": 0, "nb": rng.choice([1, 1, 2, 4]), "en": rng.choice([1, 2]), "ba": True, "base": rng.choice([0, 16]), "off": 0}]
        if rng.random() < 0.4:
            maps.append({"par": 1, "nb": rng.choice([1, 2, 4]), "en": rng.choice([1, 2]), "ba": True, "base": 0, "off": 0x400})
        regs, ind = [], []

        def reg(m, n, off, rights="RW"):
            fs = fields(rng, n)
            while not fs:
                fs = fields(rng, n)
            regs.append({"n": n, "blk": 1, "cb": "none", "map": m, "off": off, "rights": rights, "fields": fs})
            return len(regs)
        off = 0
        for _ in range(rng.randint(1, 4)):
            m = rng.randint(1, len(maps))
            n = rng.choice([4, 8, 8, 16, 16, 24, 32, 40, 64])
            if rng.random() < 0.2:
                for rights in ("RO", "WO"):
                    for f in regs[reg(m, n, off, rights) - 1]["fields"]:
                        f["acc"] = "RW"
            else:
                r = reg(m, n, off, rng.choice(["RW"] * 6 + ["RO", "WO"]))
                if regs[r - 1]["rights"] == "RO":  # a field which can neither be read nor written has no value to compare
                    for f in regs[r - 1]["fields"]:
                        f["cmp"] = f["cmp"] and not f["acc"].startswith("WO")
            off += 0x10
        if rng.random() < 0.35:
            m, n, cnt = rng.randint(1, len(maps)), rng.choice([8, 16, 32]), rng.randint(1, 4)
            idx = reg(m, 8, off)
            regs[-1]["fields"] = [{"lsb": 0, "n": 8, "acc": "RW", "vol": False, "cmp": True, "hasrst": False, "rst": [0] * 8}]
            tbl = [reg(0, n, 0) for _ in range(cnt)]
            data = reg(m, n, off + 0x10)
            regs[-1]["fields"] = []
            ind = [{"idx": idx, "data": data, "tbl": tbl}]
        cfg = {"maps": maps, "regs": regs, "ind": ind, "cor": rng.random() < 0.5}

        def data(r):
            """A value for register r, bits outside the fields 0."""
            x = regs[r - 1]
            fs = x["fields"]
            if ind and r == ind[0]["data"]:
                fs = regs[ind[0]["tbl"][0] - 1]["fields"]
            if ind and r == ind[0]["idx"]:
                return bits(rng.randint(0, len(ind[0]["tbl"]) if rng.random() < 0.3 else len(ind[0]["tbl"]) - 1), x["n"])
            v, c = [0] * x["n"], rng.random()
            for f in fs:
                for b in range(f["lsb"], f["lsb"] + f["n"]):
                    v[b] = 1 if c < 0.15 else 0 if c < 0.25 else rng.randint(0, 1)
            return v

        def ops(r, w):
            x = regs[r - 1]
            wd = 8 * width(maps, x["map"])
            a = phys(maps, x["map"], x["off"], (x["n"] - 1) // 8 + 1)
            v = data(r)
            v = v + [0] * (wd * len(a) - len(v))
            be = [rng.randint(0, 1) for _ in range(8)] if len(a) == 1 and rng.random() < 0.3 else [1] * 8
            return [{"do": "obs", "a": q, "w": w, "d": v[i * wd:(i + 1) * wd], "be": be} for i, q in enumerate(a)]
        h, going = [], {}
        mapped = [i + 1 for i, x in enumerate(regs) if x["map"]]
        # which value of the index selects while both differ is not specified; set() knows nothing of the rights in a map
        avoid = {i for i in mapped if regs[i - 1]["rights"] != "RW" or ind and i in (ind[0]["idx"], ind[0]["data"])}
        for _ in range(rng.randint(3, 14 if tier == "quick" else 40)):
            c = rng.random()
            if c < 0.06:
                h.append({"do": "obs", "a": 0x3f0 + rng.randrange(4), "w": rng.random() < 0.5, "d": [0] * 8, "be": [1] * 8})
            elif c < 0.12 and (set(mapped) - avoid):
                r = rng.choice(sorted(set(mapped) - avoid))
                h.append({"do": "set", "r": r, "v": data(r)})
            elif c < 0.28 and ind and not any(going.get(r) for r in (ind[0]["idx"], ind[0]["data"])):
                k = rng.randint(1, len(ind[0]["tbl"]))
                x = regs[ind[0]["data"] - 1]
                h.append({"do": "ind", "k": k, "w": rng.random() < 0.6, "v": data(ind[0]["data"]), "wid": 8 * width(maps, x["map"])})
            else:
                r = rng.choice(mapped)
                if regs[r - 1]["rights"] == "WO" or len([1 for x in regs if x["map"] == regs[r - 1]["map"] and x["off"] == regs[r - 1]["off"]]) > 1:
                    w = regs[r - 1]["rights"] == "WO"
                else:
                    w = rng.random() < 0.5
                if not going.get(r):
                    going[r] = ops(r, w)
                    if rng.random() < 0.3:
                        rng.shuffle(going[r])
                    if rng.random() < 0.1 and len(going[r]) > 1 and not (ind and r in (ind[0]["idx"], ind[0]["data"])):
                        going[r].insert(rng.randint(1, len(going[r]) - 1), dict(going[r][0]))
                for _ in range(rng.choice([1, 1, 2, 9])):
                    if going[r]:
                        h.append(going[r].pop(0))
        for r in list(going):
            if rng.random() < 0.6:
                h += going[r]
        out.append({"cfg": cfg, "h": h})
    return out


CHECKS = {"C32": Check(Part("Predictor", execute, scenarios, mc=["MC_Predictor"], gen=gen, gen_cap=(150, 20000), owns=[""]))}
