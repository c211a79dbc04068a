"""HDL paths of the register model and accesses through them into a stand-in design (spec HdlPath)."""
import fakesim
import cocotb
from registry import Part, Check
from drv import utest
from uvm.dpi.uvm_hdl import uvm_hdl
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_model import (UVM_BACKDOOR, UVM_IS_OK, UVM_LITTLE_ENDIAN, UVM_CHECK, UVM_NO_CHECK, uvm_hdl_path_slice)

SIGS = {}


class Node:
    """Any part of the design; a signal once it has a value."""

    def __init__(self, path=""):
        object.__setattr__(self, "_path", path)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Node(self._path + "." + n if self._path else n)

    def __getitem__(self, i):
        return Node("%s[%d]" % (self._path, i))

    def __int__(self):
        return SIGS.get(self._path, 0)

    def __setattr__(self, n, v):
        assert n == "value"
        SIGS[self._path] = v


def slices(ss):
    out = []
    for s in ss:
        t = uvm_hdl_path_slice()
        t.path, t.offset, t.size = s["p"], s["off"], s["size"]
        out.append(t)
    return out


def build(scn):
    UVMRegBlock.m_roots.clear()
    blks, things = [], []
    for i, b in enumerate(scn["blocks"]):
        k = UVMRegBlock("b%d" % i)
        k.configure(blks[b["par"] - 1] if b["par"] else None, b["path"])
        k.create_map("m", 0, 4, UVM_LITTLE_ENDIAN)
        blks.append(k)
    for i, b in enumerate(scn["blocks"]):
        if b["par"]:
            blks[b["par"] - 1].default_map = blks[b["par"] - 1].get_map_by_name("m")
            blks[b["par"] - 1].get_map_by_name("m").add_submap(blks[i].get_map_by_name("m"), 0x1000 * (i + 1))
    for i, x in enumerate(scn["things"]):
        b = blks[x["block"] - 1]
        if x["kind"] == "reg":
            r = UVMReg("r%d" % i, x["w"])
            r.configure(b, None, x["path"])
            lsb = 0
            for n, acc in x["fields"]:
                f = UVMRegField("f%d" % lsb)
                f.configure(r, n, lsb, acc, False, 0, True, True, False)
                lsb += n
            b.get_map_by_name("m").add_reg(r, 64 * i, "RW")
        else:
            r = UVMMem("m%d" % i, x["size"], x["w"])
            r.configure(b, x["path"])
            b.get_map_by_name("m").add_mem(r, 64 * i, "RW")
        things.append(r)
    blks[0].lock_model()
    return blks, things


def execute(scn, ev):
    utest.quiet()
    SIGS.clear()
    uvm_hdl.set_dut(Node())
    uvm_hdl.SIM_NAME = scn["sim"]
    ev.append({"op": "cfg", "blocks": scn["blocks"], "things": [
        {"kind": x["kind"], "block": x["block"], "w": x["w"], "path": x["path"],
         "acc": sum((((1 << n) - 1) << sum(m for m, _ in x["fields"][:j])) for j, (n, a) in enumerate(x["fields"]) if a == "RO") if x["kind"] == "reg" else 0}
        for x in scn["things"]]})
    blks, things = build(scn)

    async def one(s):
        op = s["op"]
        s = dict(s)
        n0 = utest.errors()
        b = blks[s["b"] - 1] if "b" in s else None
        x = things[s["x"] - 1] if "x" in s else None
        if op == "addp":
            b.add_hdl_path(s["p"], s["k"])
        elif op == "root":
            b.set_hdl_path_root(s["p"], s["k"])
        elif op == "defk":
            b.set_default_hdl_path(s["k"])
        elif op == "slice":
            x.add_hdl_path_slice(s["p"], s["off"], s["size"], s["first"], s["k"])
        elif op == "concat":
            x.add_hdl_path(slices(s["s"]), s["k"])
        elif op == "sig":
            # one signal behind the thing: the n-th slice of its i-th path
            full = []
            n1 = utest.errors()
            x.get_full_hdl_path(full, s["k"])
            ev.append({"op": "full", "x": s["x"], "k": s["k"], "sep": ".", "err": utest.errors() - n1,
                       "r": [[{"p": c.path, "off": c.offset, "size": c.size} for c in p.slices] for p in full]})
            if not full or not full[s["i"] % len(full)].slices:
                return
            con = full[s["i"] % len(full)].slices
            c = con[s["n"] % len(con)]
            p = c.path + ("[%d]" % s["at"] if isinstance(x, UVMMem) else "")
            v = s["v"] & ((1 << (c.size if c.offset >= 0 else scn["things"][s["x"] - 1]["w"])) - 1)
            SIGS[p] = v
            s = {"op": "sig", "p": p, "v": v}
        elif op == "fullb":
            s["r"] = ["stale"]
            b.get_full_hdl_path(s["r"], s["k"], s["sep"])
            s["err"] = utest.errors() - n0
        elif op == "full":
            out = []
            x.get_full_hdl_path(out, s["k"], s["sep"])
            s["r"] = [[{"p": c.path, "off": c.offset, "size": c.size} for c in p.slices] for p in out]
            s["err"] = utest.errors() - n0
        elif op == "hasb":
            s["r"] = bool(b.has_hdl_path(s["k"]))
        elif op == "has":
            s["r"] = bool(x.has_hdl_path(s["k"]))
        elif op == "isroot":
            s["r"] = bool(b.is_hdl_path_root(s["k"]))
        elif op == "getdef":
            s["r"] = b.get_default_hdl_path()
        elif op == "acc":
            full = []
            if x.has_hdl_path(s["k"]):
                n1 = utest.errors()
                x.get_full_hdl_path(full, s["k"])
                ev.append({"op": "full", "x": s["x"], "k": s["k"], "sep": ".", "err": utest.errors() - n1,
                           "r": [[{"p": c.path, "off": c.offset, "size": c.size} for c in p.slices] for p in full]})
            if not full or utest.errors() != n0:
                return                # accesses through missing paths are not specified
            st, val = [], []
            how = s["how"]
            if how == "poke":
                await x.poke(st, s["i"], s["v"], s["k"])
            elif how == "peek":
                await x.peek(st, s["i"], val, s["k"])
            elif how == "write" and isinstance(x, UVMMem):
                await x.write(st, s["i"], s["v"], path=UVM_BACKDOOR)
            elif how == "read" and isinstance(x, UVMMem):
                await x.read(st, s["i"], val, path=UVM_BACKDOOR)
            elif how == "write":
                await x.write(st, s["v"], path=UVM_BACKDOOR)
            elif s.pop("mirror", False):
                await x.mirror(st, UVM_NO_CHECK, path=UVM_BACKDOOR)
                val = [x.get_mirrored_value()]
            else:
                await x.read(st, val, path=UVM_BACKDOOR)
            if how in ("read", "peek"):
                s["v"] = val[-1] if val else -1
            s.update(st=st[-1] == UVM_IS_OK, err=utest.errors() - n0, mir=0 if isinstance(x, UVMMem) else x.get_mirrored_value(),
                     sigs=[{"p": p, "v": v} for p, v in sorted(SIGS.items())])
        ev.append(s)

    async def main():
        for s in scn["ops"]:
            await one(s)
    st, v, _ = fakesim.run(main, seed=0)
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def rslices(rng, w, n):
    """A value of w bits spread over n signals, perhaps with gaps."""
    cuts = sorted(rng.sample(range(1, w), min(n - 1, w - 1))) if w > 1 else []
    out = []
    for lo, hi in zip([0] + cuts, cuts + [w]):
        size = hi - lo
        if size > 1 and rng.random() < .2:
            size -= 1
        out.append({"off": lo, "size": size})
    out.reverse()
    return out


def copies(rng):
    """A thing implemented several times, whose copies drift apart and agree again."""
    w = rng.choice([1, 2, 8])
    mem = rng.random() < .5
    x = {"kind": "mem" if mem else "reg", "block": 1, "w": w, "path": rng.choice(["", "x"])}
    if mem:
        x["size"] = 2
    else:
        x["fields"] = [[w, "RW"]] if w < 2 or rng.random() < .5 else [[1, "RO"], [w - 1, "RW"]]
    ops, n, cnt = [], rng.choice([1, 2, 3, 3, 4]), 0
    k = rng.choice(["RTL", "RTL", "GATES"]) if mem and x["path"] else "RTL"
    if k != "RTL":
        ops.append({"op": "addp", "b": 1, "p": "g", "k": k})
    for _ in range(n):
        if rng.random() < .3:
            ops.append({"op": "addp", "b": 1, "p": "d%d" % len(ops), "k": k})
        ss = rslices(rng, w, rng.choice([1, 2, 3])) if rng.random() < .5 else [{"off": -1, "size": -1}]
        for j, s in enumerate(ss):
            cnt += 1
            ops.append({"op": "slice", "x": 1, "p": "s%d" % cnt, "off": s["off"], "size": s["size"], "first": j == 0, "k": k})
    for _ in range(rng.randint(3, 8)):
        at = rng.randrange(2) if mem else 0
        c = rng.random()
        if c < .4:
            ops.append({"op": "sig", "x": 1, "k": k, "i": rng.randint(0, 7), "n": rng.randint(0, 2), "at": at, "v": rng.getrandbits(8)})
        if c < .3 or c > .6:
            how = rng.choice(["peek", "peek", "poke"] if mem else ["read", "read", "write"])
            ops.append({"op": "acc", "x": 1, "how": how, "k": k if mem else "", "i": at, "v": rng.getrandbits(w) if how in ("poke", "write") else 0})
    return {"blocks": [{"par": 0, "path": "dut"}], "things": [x], "ops": ops, "sim": rng.choice(["Verilator", "Icarus Verilog"])}


def scenarios(rng, tier):
    KINDS = ["RTL", "RTL", "GATES", "T"]
    for _ in range(150 if tier == "quick" else 3000):
        yield copies(rng)
    for _ in range(500 if tier == "quick" else 12000):
        nb = rng.choice([1, 2, 3, 4])
        blocks = [{"par": 0 if i == 0 else rng.randint(1, i), "path": rng.choice(["top", "dut", "top.core", ""] if i == 0 else ["u%d" % i, "u%d" % i, "", "a.b%d" % i])}
                  for i in range(nb)]
        things = []
        for i in range(rng.choice([1, 2, 3])):
            w = rng.choice([1, 4, 8, 16, 24])
            kind = rng.choice(["reg", "reg", "mem"])
            x = {"kind": kind, "block": rng.randint(1, nb), "w": w, "path": rng.choice(["", "x%d" % i, "sub.x%d" % i])}
            if kind == "mem":
                x["size"] = rng.choice([1, 4, 8])
            else:
                n = rng.randint(1, w) if rng.random() < .6 else w
                x["fields"] = [[n, rng.choice(["RW", "RW", "RO"])]] + ([[w - n, rng.choice(["RW", "RO"])]] if n < w else [])
            things.append(x)
        ops, cnt = [], 0
        if not blocks[0]["path"] or rng.random() < .2:
            ops.append({"op": "root", "b": 1, "p": rng.choice(["tb", "tb.dut"]), "k": "RTL"})

        def paths():
            nonlocal cnt
            i = rng.randint(1, len(things))
            x = things[i - 1]
            k = rng.choice(KINDS)
            n = rng.choice([1, 1, 2, 3, 4])
            ss = rslices(rng, x["w"], n) if rng.random() < .7 else [{"off": -1, "size": -1}]
            for s in ss:
                cnt += 1
                s["p"] = "s%d" % cnt if rng.random() < .9 else "h.s%d" % cnt
            if len(ss) == 1 and rng.random() < .1:
                ss = [{"p": "", "off": -1, "size": -1}]
            if x["kind"] == "reg" and rng.random() < .5:
                ops.append({"op": "concat", "x": i, "s": ss, "k": k})
            else:
                for j, s in enumerate(ss):
                    ops.append({"op": "slice", "x": i, "p": s["p"], "off": s["off"], "size": s["size"], "first": j == 0, "k": k})
        for _ in range(rng.choice([0, 1, 2])):
            paths()
        for _ in range(rng.randint(2, 14)):
            c = rng.random()
            b = rng.randint(1, nb)
            i = rng.randint(1, len(things))
            x = things[i - 1]
            k = rng.choice(["", "", "RTL", "GATES", "T"])
            if c < .06:
                ops.append({"op": "addp", "b": b, "p": rng.choice(["v%d" % len(ops), ""]), "k": rng.choice(KINDS)})
            elif c < .1:
                ops.append({"op": "root", "b": b, "p": rng.choice(["tb", "tb.x", ""]), "k": rng.choice(["RTL", "GATES", ""])})
            elif c < .15:
                ops.append({"op": "defk", "b": b, "k": rng.choice(["RTL", "GATES"] + ([""] if b > 1 else []))})
            elif c < .2:
                paths()
            elif c < .25:
                ops.append({"op": rng.choice(["hasb", "isroot"]), "b": b, "k": k})
                ops.append({"op": "getdef", "b": b})
            elif c < .3:
                ops.append({"op": "has", "x": i, "k": k})
            elif c < .4:
                ops.append({"op": "fullb", "b": b, "k": k, "sep": rng.choice([".", ".", "/"])})
            elif c < .5:
                ops.append({"op": "full", "x": i, "k": k, "sep": rng.choice([".", ".", "/"])})
            elif c < .62:
                ops.append({"op": "sig", "x": i, "k": k, "i": rng.randint(0, 3), "n": rng.randint(0, 3), "at": rng.randrange(x.get("size", 1)), "v": rng.getrandbits(24)})
            else:
                at = rng.randrange(x.get("size", 1))
                how = rng.choice(["write", "read", "poke", "peek"] if x["kind"] == "mem" else ["write", "read"])
                a = {"op": "acc", "x": i, "how": how, "k": k if how in ("poke", "peek") else "", "i": at, "v": rng.getrandbits(x["w"]) if how in ("write", "poke") else 0}
                if how == "read" and x["kind"] == "reg" and rng.random() < .2:
                    a["mirror"] = True
                ops.append(a)
        yield {"blocks": blocks, "things": things, "ops": ops, "sim": rng.choice(["Verilator", "Icarus Verilog"])}


def gen(h):
    """A behaviour of MC_HdlPath: paths, roots and accesses."""
    ops = [{k: v for k, v in e.items() if not (e["op"] == "sig" and k == "p")} for e in h]
    for k in ("", "RTL", "GATES"):
        ops += [{"op": "full", "x": x, "k": k, "sep": "."} for x in (1, 2)]
    return {"blocks": [{"par": 0, "path": "top"}, {"par": 1, "path": "u"}],
            "things": [{"kind": "reg", "block": 2, "w": 2, "path": "", "fields": [[1, "RO"], [1, "RW"]]},
                       {"kind": "mem", "block": 1, "w": 2, "path": "m", "size": 2}], "ops": ops, "sim": "Verilator"}


CHECKS = {"C45": Check(Part("HdlPath", execute, scenarios, mc=["MC_HdlPath"], gen=gen, gen_cap=(150, 4000), wall=30))}
