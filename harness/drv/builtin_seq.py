"""The built-in register sequences against a simulated device (spec BuiltIn)."""
import random
from drv import utest
from registry import Part, Check
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.comps.uvm_driver import UVMDriver
from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_IS_OK, UVM_NOT_OK, UVM_WRITE, UVM_CHECK, UVM_NO_CHECK,
                                   UVM_DO_REG_HW_RESET, UVM_DO_REG_BIT_BASH, UVM_DO_REG_ACCESS, UVM_DO_MEM_ACCESS, UVM_DO_MEM_WALK)
from uvm.reg.sequences.uvm_mem_access_seq import UVMMemAccessSeq, UVMMemSingleAccessSeq
from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemWalkSeq, UVMMemSingleWalkSeq
from uvm.reg.sequences.uvm_reg_access_seq import UVMRegAccessSeq, UVMRegMemAccessSeq, UVMRegSingleAccessSeq
from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegBitBashSeq, UVMRegSingleBitBashSeq
from uvm.reg.sequences.uvm_reg_hw_reset_seq import UVMRegHWResetSeq
from uvm.reg.sequences.uvm_reg_mem_built_in_seq import UVMRegMemBuiltInSeq
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.seq.uvm_sequencer import UVMSequencer
from drv.reg_field import POL, bits, num

CLS = {"hw": UVMRegHWResetSeq, "bash": UVMRegBitBashSeq, "acc": UVMRegAccessSeq, "macc": UVMMemAccessSeq, "walk": UVMMemWalkSeq,
       "both": UVMRegMemAccessSeq, "built": UVMRegMemBuiltInSeq}
DO = {"hw": UVM_DO_REG_HW_RESET, "bash": UVM_DO_REG_BIT_BASH, "acc": UVM_DO_REG_ACCESS, "macc": UVM_DO_MEM_ACCESS, "walk": UVM_DO_MEM_WALK}
ORDER = ["hw", "bash", "acc", "macc", "walk"]
WO = ("WO", "WOC", "WOS", "WO1", "NOACCESS")


def through(acc, rights):
    """The policy through a map of the given rights (only what the generator makes)."""
    if rights == "RO":
        if acc in ("RW", "RO", "WC", "WS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "W1"):
            return "RO"
        return "RC" if acc in ("RC", "WRC", "W1SRC", "W0SRC", "WSRC") else "RS"
    if rights == "WO":
        return "WO" if acc in ("RW", "WO") else "NOACCESS"
    return acc


def wbit(acc, c, w, written):
    if acc in ("RO", "RC", "RS", "NOACCESS"):
        return c
    if acc in ("WC", "WCRS", "WOC"):
        return 0
    if acc in ("WS", "WSRC", "WOS"):
        return 1
    if acc in ("W1", "WO1"):
        return c if written else w
    if acc[:2] in ("W1", "W0"):
        if w != int(acc[1]):
            return c
        return {"C": 0, "S": 1, "T": 1 - c}[acc[2]]
    return w


def rbit(acc, c):
    if acc in ("RC", "WRC", "WSRC", "W1SRC", "W0SRC"):
        return 0
    return 1 if acc in ("RS", "WRS", "WCRS", "W1CRS", "W0CRS") else c


class BItem(UVMSequenceItem):
    def __init__(self, name="bitem"):
        super().__init__(name)
        self.o = None


class BAdapter(UVMRegAdapter):
    root = 0

    def reg2bus(self, rw):
        it = BItem()
        it.o = {"w": rw.kind == UVM_WRITE, "addr": rw.addr, "data": rw.data, "root": self.root}
        return it

    def bus2reg(self, it, rw):
        rw.data, rw.status = it.o["data"], it.o["st"]


uvm_object_utils(BItem)
uvm_object_utils(BAdapter)


class BDrv(UVMDriver):
    v = None

    async def run_phase(self, phase):
        while True:
            got = []
            await self.seq_item_port.get_next_item(got)
            o = got[0].o
            BDrv.v.front(o)
            self.seq_item_port.item_done()


uvm_component_utils(BDrv)


class BBd(UVMRegBackdoor):
    def __init__(self, v, obj, i):
        super().__init__("bd")
        self.v, self.obj, self.i = v, obj, i

    async def write(self, rw):
        self.v.access("w", "B", self.obj, self.i, rw.offset if self.obj == "m" else 0, 0, rw.value[0])
        rw.status = UVM_IS_OK

    async def read(self, rw):
        rw.value[0] = self.v.access("r", "B", self.obj, self.i, rw.offset if self.obj == "m" else 0, 0, 0)[0]
        rw.status = UVM_IS_OK


class Run:
    def __init__(self, scn, ev):
        self.scn, self.cfg, self.ev, self.dev = scn, scn["cfg"], ev, scn["dev"]
        self.errs, self.fail = 0, self.dev.get("fail", 0)
        self.off = 0

    # ---- the model ----
    def build(self, t):
        UVMRegBlock.m_roots.clear()
        c = self.cfg
        blks, maps = [], []
        for i, p in enumerate(c["blks"]):
            b = UVMRegBlock("b%d" % i)
            b.configure(blks[p - 1] if p else None, "")
            blks.append(b)
        for k, m in enumerate(c["maps"]):
            x = blks[m["blk"] - 1].create_map("m%d" % k, 0, 8, UVM_LITTLE_ENDIAN, m.get("ba", True))
            maps.append(x)
            if m["par"]:
                maps[m["par"] - 1].add_submap(x, 0x1000 * m["blk"])
        self.regs, self.mems, self.at = [], [], {}
        for i, x in enumerate(c["regs"]):
            r = UVMReg("r%d" % i, x["n"])
            r.configure(blks[x["blk"] - 1])
            for k, y in enumerate(x["fields"]):
                f = UVMRegField("f%d" % k)
                f.configure(r, y["n"], y["lsb"], y["acc"], False, num(y["rst"]), True, True, False)
                f.set_compare(UVM_CHECK if y["cmp"] else UVM_NO_CHECK)
            for m in x["maps"]:
                maps[m["m"] - 1].add_reg(r, 16 * i, m["r"])
            if x["bd"]:
                (r.set_backdoor if hasattr(r, "set_backdoor") else lambda b: setattr(r, "m_backdoor", b))(BBd(self, "r", i))
            self.regs.append(r)
        for i, x in enumerate(c["mems"]):
            r = UVMMem("e%d" % i, x["size"], x["n"], x["acc"])
            r.configure(blks[x["blk"] - 1])
            for m in x["maps"]:
                maps[m["m"] - 1].add_mem(r, 0x400 + 0x100 * i, m["r"])
            if x["bd"]:
                (r.set_backdoor if hasattr(r, "set_backdoor") else lambda b: setattr(r, "m_backdoor", b))(BBd(self, "m", i))
            self.mems.append(r)
        blks[0].lock_model()
        sqr = UVMSequencer("sqr", t)
        drv = BDrv.type_id.create("drv", t)
        drv.seq_item_port.connect(sqr.seq_item_export)
        for k, m in enumerate(c["maps"]):
            if not m["par"]:
                a = BAdapter("ad%d" % k)
                a.root = k + 1
                maps[k].set_sequencer(sqr, a)
                maps[k].set_auto_predict(1)
        for m in maps + [UVMRegMap.backdoor()]:
            m.set_check_on_read(0)
        rootof = [k + 1 if not m["par"] else None for k, m in enumerate(c["maps"])]
        for k, m in enumerate(c["maps"]):
            if m["par"]:
                rootof[k] = rootof[m["par"] - 1]
        for i, x in enumerate(c["regs"]):
            for m in x["maps"]:
                self.at[(rootof[m["m"] - 1], self.regs[i].get_address(maps[m["m"] - 1]))] = ("r", i, 0, m["m"])
        for i, x in enumerate(c["mems"]):
            for m in x["maps"]:
                info = maps[m["m"] - 1].get_mem_map_info(self.mems[i])
                for a in range(x["size"]):
                    self.at[(rootof[m["m"] - 1], info.addr[0] + info.mem_range.stride * a)] = ("m", i, a, m["m"])
        names = {"b": blks, "r": self.regs, "m": self.mems}
        for kind, i, att in self.scn["excl"]:
            UVMResourceDb.set("REG::" + names[kind][i].get_full_name(), att, 1)
        for i, att in self.scn["pats"]:
            UVMResourceDb.set("REG::" + blks[i].get_full_name() + ".*", att, 1)
        self.blks = blks
        self.reset()

    # ---- the device ----
    def reset(self):
        c, d = self.cfg, self.dev
        self.v, self.wr = [], [False] * len(c["regs"])
        for i, x in enumerate(c["regs"]):
            v = [0] * x["n"]
            for y in x["fields"]:
                v[y["lsb"]:y["lsb"] + y["n"]] = y["rst"]
            if d["t"] == "rst" and d["i"] == i:
                v[d["b"]] ^= 1
            self.v.append(v)
        if not hasattr(self, "mem"):
            g = random.Random(self.scn["seed"])
            self.mem = [[[g.randint(0, 1) for _ in range(x["n"])] for _ in range(x["size"])] for x in c["mems"]]

    def pol(self, i, k, m):
        x = self.cfg["regs"][i]
        if self.dev["t"] == "pol" and (self.dev["i"], self.dev["k"]) == (i, k):
            return self.dev["acc"]
        return through(x["fields"][k]["acc"], next((q["r"] for q in x["maps"] if q["m"] == m), "RW"))

    def access(self, k, p, obj, i, a, m, data):
        """One access as the device sees it; logs it and returns (data, ok)."""
        c, d = self.cfg, self.dev
        e = utest.errors()
        x = c["regs" if obj == "r" else "mems"][i]
        n = x["n"]
        ok = True
        if p == "F":
            self.fail -= 1
            ok = self.fail != 0
        j, b = i, a
        if d["t"] == "swap" and d["p"] == p and d["i"] == i and obj == "r":
            j = d["j"]
        if d["t"] == "malias" and d["p"] == p and d["i"] == i and obj == "m" and a == d["a"]:
            b = d["b"]
        stick = d["t"] == "stuck" and d["obj"] == obj and d["i"] == j and (obj == "r" or d["a"] == b)
        if k == "w":
            v = [(data >> q) & 1 for q in range(n)]
            if ok and obj == "r":
                w = self.v[j]
                for f, y in enumerate(c["regs"][j]["fields"]):
                    for q in range(y["lsb"], y["lsb"] + y["n"]):
                        w[q] = (v[q] if q < n else 0) if p == "B" else wbit(self.pol(j, f, m), w[q], v[q] if q < n else 0, self.wr[j])
                self.wr[j] = self.wr[j] or p == "F"
            elif ok and not (p == "F" and self.macc(i, m) == "RO"):
                self.mem[j][b] = list(v)
        elif obj == "r":
            w = self.v[j]
            if stick:
                w[d["b"]] = d["v"]
            out = [0] * max(n, len(w))
            for f, y in enumerate(c["regs"][j]["fields"]):
                acc = self.pol(j, f, m)
                for q in range(y["lsb"], y["lsb"] + y["n"]):
                    if p == "B" or acc not in WO:
                        out[q] = w[q]
                    if p == "F" and ok:
                        w[q] = rbit(acc, w[q])
            # what bits outside of the fields read is not specified
            cover = {q for y in x["fields"] for q in range(y["lsb"], y["lsb"] + y["n"])}
            v = [out[q] if q in cover else 0 for q in range(n)]
        else:
            v = list(self.mem[j][b])
            if stick:
                v[d["b"]] = d["v"]
        self.ev.append({"op": "acc", "k": k, "p": p, "obj": obj, "i": i + 1, "a": a, "m": m, "v": v, "ok": ok, "err": e - self.errs})
        if k == "w" and (data < 0 or data >> 64):
            self.ev[-1]["v"] = ["odd"]
        self.errs = e
        return num(v), ok

    def macc(self, i, m):
        x = self.cfg["mems"][i]
        return "RO" if x["acc"] == "RO" or (len(x["maps"]) > 1 and next(q["r"] for q in x["maps"] if q["m"] == m) == "RO") else "RW"

    def front(self, o):
        obj, i, a, m = self.at.get((o["root"], o["addr"]), ("?", 0, 0, 0))
        if obj == "?":
            self.ev.append({"op": "crash", "what": "access to address %x of map %d" % (o["addr"], o["root"])})
            o["st"] = UVM_NOT_OK
            return
        v, ok = self.access("w" if o["w"] else "r", "F", obj, i, a, m, o["data"])
        if not o["w"]:
            o["data"] = v
        o["st"] = UVM_IS_OK if ok else UVM_NOT_OK

    async def run(self, t, phase):
        me = self

        async def reset_blk(seq, blk):
            e = utest.errors()
            me.reset()
            me.ev.append({"op": "devreset", "err": e - me.errs})
            me.errs = e
        for c in CLS.values():
            if hasattr(c, "reset_blk"):
                c.reset_blk = reset_blk
        self.errs = utest.errors()
        s = CLS[self.scn["run"]].type_id.create("seq") if self.scn["fac"] else CLS[self.scn["run"]]("seq")
        s.model = self.blks[0]
        if self.scn["run"] == "built" and not self.scn["all"]:
            s.tests = sum(DO[q] for q in self.scn["tests"])
        await s.start(None)
        self.ev.append({"op": "end", "err": utest.errors() - self.errs})


def execute(scn, ev):
    ev.append(dict({k: v for k, v in scn["cfg"].items() if k != "maps"}, op="cfg"))
    v = BDrv.v = Run(scn, ev)
    utest.run({"build": v.build, "run": v.run}, ev, seed=scn.get("seed", 0))


def finish(c, run, dev, rng, tests=None):
    seq = {"both": ["acc", "macc"], "built": [q for q in ORDER if tests is None or q in tests]}.get(run, [run])
    c["seq"] = seq
    return {"cfg": c, "run": run, "all": tests is None, "tests": tests or [], "dev": dev, "excl": [], "pats": [], "fac": rng.random() < 0.5, "seed": rng.randrange(1 << 20)}


def gen(g):
    """A behaviour of the model: one configuration and one deviation."""
    c, rng = dict(g["cfg"]), random.Random(str(g))
    c["maps"] = [{"blk": 1, "par": 0}, {"blk": 1, "par": 0}]
    t = g["dev"]
    n = c["mems"][0]["size"] if c["mems"] else 0
    acc2 = c["regs"][0]["fields"][1]["acc"] if c["regs"] else ""
    o = "r" if c["regs"] else "m"
    dev = {"none": {}, "rst": {"i": 0, "b": 1}, "stuck0": {"t": "stuck", "obj": "r", "i": 0, "b": 1, "v": 0}, "stuck1": {"t": "stuck", "obj": "r", "i": 0, "b": 1, "v": 1},
           "pol": {"i": 0, "k": 1, "acc": "RO" if acc2 == "RW" else "RW"}, "swap": {"p": "F", "i": 0, "j": 1},
           "mstuck0": {"t": "stuck", "obj": "m", "i": 0, "a": 0, "b": 0, "v": 0}, "mstuck1": {"t": "stuck", "obj": "m", "i": 0, "a": 0, "b": 0, "v": 1},
           "malias": {"p": "F", "i": 0, "a": 0, "b": 1 if n > 1 else 0}, "mbd": {"t": "malias", "p": "B", "i": 0, "a": 0, "b": 1 if n > 1 else 0}}[t]
    s = finish(c, "built" if len(c["seq"]) > 1 else c["seq"][0], dict({"t": t}, **dev), rng, c["seq"])
    s["tests"] = list(c["seq"])
    return s


ATT = {"hw": "NO_REG_HW_RESET_TEST", "bash": "NO_REG_BIT_BASH_TEST", "acc": "NO_REG_ACCESS_TEST", "walk": "NO_MEM_WALK_TEST", "macc": "NO_MEM_ACCESS_TEST"}


def scenarios(rng, tier):
    out = []
    for _ in range(130 if tier == "quick" else 6000):
        nb = rng.choice([1, 1, 2, 2, 3])
        blks = [0] + [rng.randint(1, i) for i in range(1, nb)]
        nroot = rng.choice([1, 1, 2])
        maps = [{"blk": 1, "par": 0} for _ in range(nroot)]
        bm = {1: list(range(1, nroot + 1))}
        for b in range(2, nb + 1):
            bm[b] = []
            ps = list(bm[blks[b - 1]])
            for p in [p for p in ps if rng.random() < 0.8] or ps[:1]:
                maps.append({"blk": b, "par": p})
                bm[b].append(len(maps))
        regs, mems = [], []
        run = rng.choice(["hw", "bash", "bash", "acc", "acc", "macc", "walk", "both", "built", "built"])
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([3, 4, 8, 8, 12, 16] + [32, 40] * (run != "bash"))
            fields, at = [], rng.choice([0, 0, 1])
            while at < n and len(fields) < 4:
                w = min(rng.choice([1, 1, 2, 3, 5, 8]), n - at)
                fields.append({"lsb": at, "n": w, "acc": rng.choice(POL + ["RW"] * 6 + ["RO", "W1C"]), "cmp": rng.random() < 0.85,
                               "rst": [rng.randint(0, 1) for _ in range(w)]})
                at += w + rng.choice([0, 0, 0, 1, 2])
            b = rng.randint(1, nb)
            ms = [m for m in bm[b] if rng.random() < 0.7] or bm[b][:1]
            wo = any(f["acc"] in WO for f in fields)
            rw = all(f["acc"] == "RW" for f in fields)
            # a backdoor write obeys the rights of the default map: what it does when those restrict the register is not specified
            bd = rng.random() < 0.85
            regs.append({"n": n, "nb": (n + 7) // 8 * 8, "blk": b, "bd": bd, "ex": [],
                         "maps": [{"m": m, "r": "RW" if wo or (bd and (m == bm[b][0] or bm[b][0] not in ms)) or rng.random() < 0.7 else rng.choice(["RO", "WO"] if rw else ["RO"])} for m in ms], "fields": fields})
        for _ in range(rng.randint(0, 2) if run in ("hw", "bash", "acc") else rng.randint(1, 2)):
            b = rng.randint(1, nb)
            ms = [m for m in bm[b] if rng.random() < 0.7] or bm[b][:1]
            mems.append({"n": rng.choice([1, 4, 8, 16, 31, 32, 33, 40, 64]), "size": rng.choice([1, 2, 3, 4, 6]), "blk": b, "bd": rng.random() < 0.85, "ex": [],
                         "acc": rng.choice(["RW", "RW", "RW", "RO"]), "maps": [{"m": m, "r": rng.choice(["RW", "RW", "RO"])} for m in ms]})
        tests = None if rng.random() < 0.5 else [q for q in ORDER if rng.random() < 0.6]
        t = rng.choice(["none"] * 6 + ["rst", "stuck", "stuck", "pol", "pol", "swap", "malias", "malias", "fail"])
        dev = {"t": "none"}
        r = rng.randrange(len(regs))
        anyf = [(i, k) for i, x in enumerate(regs) for k in range(len(x["fields"]))]
        if t == "rst":
            i, k = rng.choice(anyf)
            f = regs[i]["fields"][k]
            dev = {"t": t, "i": i, "b": f["lsb"] + rng.randrange(f["n"])}
        elif t == "stuck" and mems and rng.random() < 0.4:
            i = rng.randrange(len(mems))
            dev = {"t": t, "obj": "m", "i": i, "a": rng.randrange(mems[i]["size"]), "b": rng.randrange(mems[i]["n"]), "v": rng.randint(0, 1)}
        elif t == "stuck":
            i, k = rng.choice(anyf)
            f = regs[i]["fields"][k]
            dev = {"t": t, "obj": "r", "i": i, "b": f["lsb"] + rng.randrange(f["n"]), "v": rng.randint(0, 1)}
        elif t == "pol":
            i, k = rng.choice(anyf)
            dev = {"t": t, "i": i, "k": k, "acc": rng.choice(POL)}
        elif t == "swap" and len(regs) > 1:
            dev = {"t": t, "i": r, "j": rng.choice([q for q in range(len(regs)) if q != r]), "p": rng.choice("FFB")}
        elif t == "malias" and mems:
            i = rng.randrange(len(mems))
            dev = {"t": t, "i": i, "a": rng.randrange(mems[i]["size"]), "b": rng.randrange(mems[i]["size"]), "p": rng.choice("FFB")}
        elif t == "fail":
            dev = {"t": t, "fail": rng.randint(1, 12)}
        c = {"blks": blks, "bex": [[] for _ in blks], "regs": regs, "mems": mems, "maps": maps, "conf": dev["t"] == "none"}
        s = finish(c, run, dev, rng, tests if run == "built" else None)
        leaf = [b for b in range(nb) if b == 0 or b + 1 not in blks]
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            att = rng.choice(["NO_REG_TESTS", "NO_MEM_TESTS"] + [ATT[q] for q in c["seq"]] * 2 + list(ATT.values()))
            kind = rng.choice("rrrmmbbp")
            if kind == "r":
                i = rng.randrange(len(regs))
                regs[i]["ex"].append(att)
            elif kind == "m" and mems:
                i = rng.randrange(len(mems))
                mems[i]["ex"].append(att)
            elif kind == "b":
                i = rng.choice(leaf)
                c["bex"][i].append(att)
            elif kind == "p":
                i = rng.randrange(nb)

                def under(b):
                    return b != 0 and (b == i + 1 or under(blks[b - 1]))
                for x in regs + mems:
                    if under(x["blk"]):
                        x["ex"].append(att)
                s["pats"].append([i, att])
                continue
            else:
                continue
            s["excl"].append([kind, i, att])
        out.append(s)
    return out


CHECKS = {"C38": Check(Part("BuiltIn", execute, scenarios, mc=["MC_BuiltIn"], gen=gen, gen_cap=(100, 8000), owns=[""], wall=30))}
