"""One register field in a register that two maps restrict differently (spec RegField)."""
from drv import utest
from registry import Part, Check
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_cbs import UVMRegCbs, UVMRegFieldCb
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT,
                                   UVM_FRONTDOOR, UVM_BACKDOOR, UVM_PREDICT)

POL = ["RO", "RW", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T",
       "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"]
PATH = {"F": UVM_FRONTDOOR, "B": UVM_BACKDOOR, "P": UVM_PREDICT}
KIND = {"pw": UVM_PREDICT_WRITE, "pr": UVM_PREDICT_READ, "pd": UVM_PREDICT_DIRECT}


def bits(v, n):
    if not isinstance(v, int) or v < 0 or v >> n:
        return ["odd"]
    return [(v >> i) & 1 for i in range(n)]


def num(b):
    return sum(x << i for i, x in enumerate(b))


class Seen(UVMRegCbs):
    def __init__(self, log, n):
        super().__init__("seen")
        self.log, self.n = log, n

    def post_predict(self, fld, previous, value, kind, path, map):
        self.log.append({"prev": bits(previous, self.n), "v": bits(value, self.n),
                         "k": {UVM_PREDICT_WRITE: "pw", UVM_PREDICT_READ: "pr"}.get(kind, "?")})


def execute(scn, ev):
    c = scn["cfg"]
    n = c["n"]
    ev.append(dict(c, op="cfg"))
    utest.quiet()
    UVMRegBlock.m_roots.clear()
    blk = UVMRegBlock("blk")
    blk.configure(None, "")
    maps = [UVMRegMap.backdoor()] + [blk.create_map("m%d" % i, 0, 4, UVM_LITTLE_ENDIAN) for i in (1, 2)]
    reg = UVMReg("r", 64)
    reg.configure(blk)
    f = UVMRegField("f")
    f.configure(reg, n, scn.get("lsb", 0), scn.get("as", c["acc"]), c["vol"], num(c["rst"]), c["hasrst"], True, False)
    reg.add_map(maps[1])
    for i in (1, 2):
        maps[i].add_reg(reg, 0, c["rights"][i - 1])
    blk.lock_model()
    log = []
    if c["cbs"]:
        UVMRegFieldCb.add(f, Seen(log, n))
    for s in scn["h"]:
        d = s["do"]
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"] = d
        if d == "set":
            f.set(num(s["v"]))
        elif d in KIND:
            del log[:]
            e["ok"] = f.predict(num(s["v"]), -1 if s["be"] else 0xFE, KIND[d], PATH[s["path"]], maps[s["map"]]) == 1
            e["cb"] = list(log)
        elif d == "reset":
            f.reset(s["kind"])
        elif d == "setrst":
            f.set_reset(num(s["v"]), s["kind"])
        elif d == "delrst":
            f.has_reset(s["kind"], True)
        elif d == "getrst":
            e["v"] = bits(f.get_reset(s["kind"]), n)
            e["has"] = bool(f.has_reset(s["kind"]))
        elif d == "acc":
            e0 = utest.errors()
            e["old"] = f.set_access(s["a"])
            e["err"] = utest.errors() > e0
        elif d == "vol":
            f.set_volatility(s["v"])
        e["des"] = bits(f.get(), n)
        e["mir"] = bits(f.get_mirrored_value(), n)
        e["nu"] = bool(f.needs_update())
        e["upd"] = bits(f.XupdateX(), n)
        e["vr"] = bits(f.value, n)
        e["macc"] = [f.get_access(maps[1]), f.get_access(maps[2]), f.get_access(maps[0])]
        ev.append(e)


def gen(g):
    return {"cfg": g["cfg"], "h": g["h"]}


def scenarios(rng, tier):
    out = []
    pols = POL * (6 if tier == "quick" else 60)
    for k, a in enumerate(pols):
        n = rng.choice([1, 2, 3, 5, 8, 8, 16, 31, 32, 33, 64])

        def rb(m=None):
            m = m or n
            x = rng.random()
            return [1] * m if x < 0.1 else [0] * m if x < 0.2 else [rng.randint(0, 1) for _ in range(m)]
        cfg = {"acc": a, "n": n, "vol": rng.random() < 0.2, "rights": [rng.choice(["RW", "RW", "RO", "WO"]), rng.choice(["RO", "WO", "RW"])],
               "hasrst": rng.random() < 0.8, "rst": rb(), "cbs": rng.random() < 0.5}
        h = []
        for _ in range(rng.randint(3, 12 if tier == "quick" else 25)):
            d = rng.choice(["set", "set", "set", "pw", "pw", "pw", "pr", "pr", "pd", "reset", "reset", "setrst", "delrst", "getrst", "vol", "acc"])
            s = {"do": d}
            if d == "set":
                s["v"] = rb(n + rng.choice([0, 0, 0, 2]))
            elif d in KIND:
                m = rng.choice([1, 1, 1, 2, 0])
                s.update(v=rb(n + rng.choice([0, 0, 0, 3])), map=m, path="B" if m == 0 else rng.choice("FFP"), be=rng.random() < 0.85)
            elif d in ("reset", "delrst", "getrst"):
                s["kind"] = rng.choice(["HARD", "HARD", "SOFT", "POR"])
                if d == "delrst" and rng.random() < 0.5:
                    s = {"do": "getrst", "kind": s["kind"]}
            elif d == "setrst":
                s.update(kind=rng.choice(["HARD", "SOFT"]), v=rb(n + rng.choice([0, 0, 1])))
            elif d == "vol":
                s["v"] = rng.random() < 0.5
            elif d == "acc":
                if rng.random() < 0.5:
                    continue
                s["a"] = rng.choice(POL + ["XX", "RWX"])
            h.append(s)
        scn = {"cfg": cfg, "h": h, "lsb": rng.choice([0, 0, 64 - n, (64 - n) // 2])}
        if k % 7 == 0:
            scn["as"] = a.lower()
        elif k % 50 == 1:
            scn["as"] = "XYZ"
            cfg["acc"] = "RW"
        out.append(scn)
    return out


CHECKS = {"C26": Check(Part("RegField", execute, scenarios, mc=["MC_RegField"], gen=gen, gen_cap=(1500, 20000), owns=[""]))}
