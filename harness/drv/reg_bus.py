"""Frontdoor and backdoor accesses of registers and memories (spec RegBus)."""
import cocotb
from cocotb.triggers import Timer
import fakesim
from drv import utest
from registry import Part, Check
from uvm.base.uvm_object_globals import UVM_ERROR, UVM_NO_ACTION
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_map import UVMRegTransactionOrderPolicy
from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO, UVM_FRONTDOOR, UVM_BACKDOOR,
                                   UVM_IS_OK, UVM_NOT_OK, UVM_WRITE, UVM_READ, UVM_BURST_WRITE)
from uvm.seq.uvm_sequence_base import UVMSequenceBase
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.comps.uvm_driver import UVMDriver
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils

EN = {1: UVM_LITTLE_ENDIAN, 2: UVM_BIG_ENDIAN, 3: UVM_LITTLE_FIFO, 4: UVM_BIG_FIFO}


def by(v):
    out = []
    while v:
        out.append(v & 0xff)
        v >>= 8
    return out


def un(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


class Item(UVMSequenceItem):
    def __init__(self, name="item"):
        super().__init__(name)
        self.acc, self.o = 0, None


class Adapter(UVMRegAdapter):
    def reg2bus(self, rw):
        it = Item()
        it.acc = getattr(self.get_item().extension, "v_id", 0)
        it.o = {"kind": rw.kind, "addr": rw.addr, "data": rw.data, "bits": rw.n_bits, "be": rw.byte_en}
        return it

    def bus2reg(self, it, rw):
        rw.kind, rw.addr, rw.data = it.o["kind"], it.o["addr"], it.o["data"]
        rw.status = it.o["st"]


class Ext(UVMSequenceItem):
    pass


class Policy(UVMRegTransactionOrderPolicy):
    def order(self, q):
        q.reverse()


class ParSeq(UVMSequenceBase):
    pass


uvm_object_utils(ParSeq)
uvm_object_utils(Item)
uvm_object_utils(Adapter)
uvm_object_utils(Ext)


class Drv(UVMDriver):
    v = None         # the running scenario

    async def run_phase(self, phase):
        while True:
            got = []
            await self.seq_item_port.get_next_item(got)
            it = got[0]
            rsp = await Drv.v.bus(self.v_root, it)
            self.seq_item_port.item_done(*([rsp] if rsp is not None else []))


uvm_component_utils(Drv)


class Fd(UVMRegFrontdoor):
    async def body(self):
        await Drv.v.direct(self.rw_info)


class Bd(UVMRegBackdoor):
    def __init__(self, v, i):
        super().__init__("bd")
        self.v, self.i = v, i

    async def write(self, rw):
        await Timer(1 + self.i, "ns")
        for j, x in enumerate(rw.value):
            self.v.bd[(self.i, rw.offset + j)] = x
        rw.status = UVM_IS_OK

    async def read(self, rw):
        await Timer(1 + self.i, "ns")
        for j in range(len(rw.value)):
            rw.value[j] = self.v.bd.get((self.i, rw.offset + j), 0)
        rw.status = UVM_IS_OK


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev = scn, scn["cfg"], ev
        self.rng = __import__("random").Random(scn.get("seed", 0))
        self.bd, self.dev, self.nbus = {}, {}, 0

    def fails(self, acc):
        s = self.scn["h"][acc - 1]
        if s.get("fail") is None or s["n"] > 1:
            return False
        s["fail"] -= 1
        return s["fail"] < 0

    async def bus(self, root, it):
        d = self.rng.choice([0, 0, 1, 2, 5])
        if d:
            await Timer(d, "ns")
        if isinstance(it, UVMRegItem):
            await self.direct(it)
            return None
        o = it.o
        mp = self.cfg["maps"][root - 1]
        bits = o["bits"]
        w = o["kind"] in (UVM_WRITE, UVM_BURST_WRITE)
        ok = not self.fails(it.acc)
        nb = self.width[it.acc]
        mask = (1 << max(min(bits, nb * 8), 0)) - 1
        rd = 0
        if not w:
            rd = self.dev.get((root, o["addr"]), (o["addr"] * 0x9E3779B1) & ((1 << 64) - 1)) & mask
        elif ok:
            self.dev[(root, o["addr"])] = o["data"]
        full = (1 << nb) - 1
        self.ev.append({"op": "bus", "id": it.acc, "root": root, "addr": o["addr"], "w": w, "data": by(o["data"]) if w else [],
                        "bits": bits, "be": int(o["be"] & full == full), "ok": ok, "rdata": by(rd) if ok and not w else []})
        o["data"], o["st"] = (o["data"] if w else rd), (UVM_IS_OK if ok else UVM_NOT_OK)
        if self.adapters[root].provides_responses:
            rsp = Item("rsp")
            rsp.set_id_info(it)
            rsp.acc, rsp.o = it.acc, dict(o)
            if not w:
                o["data"] = 0xdead
            return rsp
        return None

    async def direct(self, rw):
        d = self.rng.choice([0, 1, 3])
        if d:
            await Timer(d, "ns")
        acc = rw.extension.v_id
        ok = not self.fails(acc)
        w = rw.kind in (UVM_WRITE, UVM_BURST_WRITE)
        e = {"op": "direct", "id": acc, "w": w, "i": self.items.index(rw.element) + 1, "off": rw.offset if isinstance(rw.offset, int) else 0,
             "vals": [by(x) for x in rw.value] if w else [], "ok": ok,
             "rvals": [] if w else [by(self.rng.randrange(1 << self.cfg["items"][self.items.index(rw.element)]["bits"])) for _ in rw.value]}
        if not w:
            for j, b in enumerate(e["rvals"]):
                rw.value[j] = un(b)
        rw.status = UVM_IS_OK if ok else UVM_NOT_OK
        self.ev.append(e)

    def build(self, t):
        cfg = self.cfg
        UVMRegBlock.m_roots.clear()
        self.blks, self.maps, self.items, self.adapters = [], [], [], {}
        for i, m in enumerate(cfg["maps"]):
            if m["par"]:
                b = UVMRegBlock("b%d" % i)
                b.configure(self.blks[m["par"] - 1], "")
            else:
                b = self.blks[0] if i else UVMRegBlock("top")
                if not i:
                    b.configure(None, "")
            self.blks.append(b)
            self.maps.append(b.create_map("map%d" % i, m["base"], m["nb"], EN[m["en"]], m["ba"]))
        for i, m in enumerate(cfg["maps"]):
            if m["par"]:
                self.maps[m["par"] - 1].add_submap(self.maps[i], m["off"])
        for i, x in enumerate(cfg["items"]):
            b = self.blks[x["maps"][0]["m"] - 1] if x["maps"] else self.blks[0]
            if x["kind"] == "reg":
                r = UVMReg("r%d" % i, x["bits"])
                r.configure(b)
                f = UVMRegField("f")
                f.configure(r, x["bits"], 0, "RW", False, 0, True, True, False)
            else:
                r = UVMMem("m%d" % i, x["size"], x["bits"], x["acc"])
                r.configure(b)
            for p in x["maps"]:
                fd = None
                if p["fd"]:
                    fd = Fd("fd")
                (self.maps[p["m"] - 1].add_reg if x["kind"] == "reg" else self.maps[p["m"] - 1].add_mem)(r, p["off"], "RW", p["un"], fd)
            if x["bd"]:
                r.set_backdoor(Bd(self, i + 1))
            self.items.append(r)
        self.blks[0].lock_model()
        for i, m in enumerate(cfg["maps"]):
            if m["par"] == 0:
                sqr, drv = UVMSequencer("sqr%d" % i, t), Drv("drv%d" % i, t)
                drv.v_root = i + 1
                drv.seq_item_port.connect(sqr.seq_item_export)
                ad = Adapter("ad") if cfg["adap"] else None
                if ad is not None:
                    ad.provides_responses = bool(self.scn.get("rsp"))
                    if self.scn.get("parseq"):
                        ad.parent_sequence = ParSeq("ps")
                self.adapters[i + 1] = ad
                self.maps[i].set_sequencer(sqr, ad)
                self.maps[i].set_auto_predict(self.scn.get("ap", 1))
            if cfg["rev"]:
                self.maps[i].policy = Policy("pol")

    async def one(self, k, s):
        x = self.cfg["items"][s["i"] - 1]
        r = self.items[s["i"] - 1]
        ext = Ext("x")
        ext.v_id = k
        e = {q: s[q] for q in ("i", "kind", "off", "n", "vals", "mp", "path")}
        e.update(op="start", id=k)
        mp = self.maps[s["mp"] - 1] if s["mp"] else None
        pm = [p["m"] for p in x["maps"] if s["mp"] == 0 or p["m"] == s["mp"] or self.under(p["m"], s["mp"])]
        pm = ([p["m"] for p in x["maps"] if p["m"] == s["mp"]] or pm or [1])[0]
        self.width[k] = self.maps[pm - 1].get_n_bytes()
        self.ev.append(e)
        st, out = [], []
        kw = dict(path=UVM_FRONTDOOR if s["path"] == "F" else UVM_BACKDOOR, _map=mp, extension=ext)
        if s.get("seq"):
            kw["parent"] = self.seq
        if x["kind"] == "reg":
            if s["kind"] == "W":
                await r.write(st, un(s["vals"][0]), **kw)
            else:
                await r.read(st, out, **kw)
        elif s["n"] == 1 and not s.get("burst"):
            if s["kind"] == "W":
                await r.write(st, s["off"], un(s["vals"][0]), **kw)
            else:
                await r.read(st, s["off"], out, **kw)
        elif s["kind"] == "W":
            await r.burst_write(st, s["off"], [un(v) for v in s["vals"]], **kw)
        else:
            out = [0] * s["n"]
            await r.burst_read(st, s["off"], out, **kw)
        self.ev.append({"op": "end", "id": k, "status": {UVM_IS_OK: "IS_OK", UVM_NOT_OK: "NOT_OK"}.get(st[0], str(st[0])),
                        "vals": [by(v) for v in out] if s["kind"] == "R" else []})

    def under(self, m, top):
        while m:
            if m == top:
                return True
            m = self.cfg["maps"][m - 1]["par"]
        return False

    async def body(self, t, phase):
        self.width = {}
        self.seq = UVMSequenceBase("parent")
        self.seq.set_sequencer(next(iter(self.adapters.keys())) and self.maps[0].get_sequencer())
        running = []
        for k, s in enumerate(self.scn["h"], 1):
            if not s["par"]:
                for r in running:
                    await r
                running = []
            if s.get("delay"):
                await Timer(s["delay"], "ns")
            running.append(cocotb.start_soon(self.one(k, s)))
        for r in running:
            await r


def execute(scn, ev):
    ev.append(dict(scn["cfg"], op="cfg"))
    scn = dict(scn, h=[dict(s) for s in scn["h"]])
    v = Drv.v = Run(scn, ev)

    async def go(t, phase):
        await v.body(t, phase)
    utest.run({"build": v.build, "run": go}, ev, seed=scn.get("seed", 0))


def gen(g):
    import zlib
    h = [{k: v for k, v in s.items() if k not in ("op", "id")} for s in g["h"]]
    k = zlib.crc32(repr(h).encode())
    return {"cfg": g["cfg"], "h": h, "seed": k % 97, "rsp": k % 2}


def val(rng, bits):
    return by(rng.choice([rng.randrange(1 << bits), rng.randrange(1 << bits), (1 << bits) - 1, 0, 1, 1 << (bits - 1)]))


def scen(rng, mems):
    nm = rng.choice([1, 2, 2, 3, 3, 4])
    roots = rng.random() < 0.25
    maps = []
    for i in range(nm):
        par = 0 if i == 0 or (roots and i == nm - 1) else rng.randint(1, i)
        maps.append({"par": par, "nb": rng.choice([1, 2, 4, 4, 8]), "en": rng.choice([1, 1, 1, 2, 2, 3]), "ba": rng.random() < 0.75,
                     "base": rng.choice([0, 0x1000]) if par == 0 else 0, "off": 0 if par == 0 else rng.choice([0x400, 0x800, 0xc00])})
    items = []
    for i in range(rng.randint(1, 3)):
        kind = "mem" if mems or rng.random() < 0.3 else "reg"
        ms = []
        for m in rng.sample(range(1, nm + 1), rng.choice([1, 1, 1, min(2, nm)])):
            ms.append({"m": m, "off": 0x100 * i + rng.choice([0, 0x10, 0x40]), "un": rng.random() < 0.07, "fd": rng.random() < 0.08})
        # an item is mapped twice only in two root maps, which belong to the same block
        if any(maps[q["m"] - 1]["par"] for q in ms):
            ms = ms[:1]
        bits = rng.choice([8, 16, 32, 32, 64, 12, 24])
        items.append({"kind": kind, "maps": ms, "bits": bits, "size": rng.choice([1, 2, 4, 7, 16]) if kind == "mem" else 1,
                      "acc": rng.choice(["RW", "RW", "RO"]) if kind == "mem" else "RW", "bd": kind == "mem" and rng.random() < 0.4})
    h = []
    # a frontdoor sequence of a memory cannot run twice at the same time
    single = any(p["fd"] for x in items for p in x["maps"] if x["kind"] == "mem")
    for _ in range(rng.randint(2, 7)):
        i = rng.randint(1, len(items))
        x = items[i - 1]
        n = rng.choice([1, 1, 2, 3, 4]) if x["kind"] == "mem" else 1
        off = rng.choice([0, 1, x["size"] - 1, rng.randrange(x["size"]), x["size"]]) if x["kind"] == "mem" else 0
        path = "B" if x["bd"] and rng.random() < 0.5 else "F"
        if path == "B" and off < x["size"]:
            n = min(n, x["size"] - off)
        kind = rng.choice("WR")
        mp = 0
        if len(x["maps"]) > 1 or rng.random() < 0.5:
            if rng.random() < 0.1:
                mp = rng.randint(1, nm)
            else:
                mp = rng.choice(x["maps"])["m"]
                while maps[mp - 1]["par"] and rng.random() < 0.5 and len(x["maps"]) == 1:
                    mp = maps[mp - 1]["par"]
        h.append({"do": "acc", "i": i, "kind": kind, "off": off, "n": n, "mp": mp, "path": path, "par": not single and rng.random() < 0.4, "burst": rng.random() < 0.3,
                  "vals": [val(rng, x["bits"]) if kind == "W" else [] for _ in range(n)], "delay": rng.choice([0, 0, 0, 1, 3]),
                  "fail": rng.randint(0, 3) if rng.random() < 0.12 else None})
    return {"cfg": {"maps": maps, "items": items, "rev": rng.random() < 0.15, "adap": rng.random() < 0.92}, "h": h,
            "seed": rng.randrange(1 << 20), "rsp": rng.random() < 0.5, "parseq": rng.random() < 0.1, "ap": rng.random() < 0.5}


def scenarios(mems):
    return lambda rng, tier: [scen(rng, mems) for _ in range(260 if tier == "quick" else 12000)]


def part(mems):
    return Part("RegBus", execute, scenarios(mems), mc=["MC_RegBus"], gen=gen, gen_cap=(120, 20000), owns=[""])


CHECKS = {"C29": Check(part(False)), "C30": Check(part(True))}
