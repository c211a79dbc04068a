"""Address maps (spec RegMap): placement, lookup, conflict reports, moves."""
from drv import utest
from registry import Part, Check
from uvm.base.uvm_object_globals import UVM_WARNING, UVM_DISPLAY
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_model import UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO

EN = {1: UVM_LITTLE_ENDIAN, 2: UVM_BIG_ENDIAN, 3: UVM_LITTLE_FIFO, 4: UVM_BIG_FIFO}


class Catch(UVMReportCatcher):
    def __init__(self):
        super().__init__("catch")
        self.msgs = []

    def catch(self):
        if self.get_severity() == UVM_WARNING:
            self.msgs.append(self.get_message())
        return 1


def build(cfg):
    """Blocks, maps, registers and memories of cfg; not locked."""
    UVMRegBlock.m_roots.clear()
    blks, maps, items = [], [], []
    for i, m in enumerate(cfg["maps"]):
        b = UVMRegBlock("b%d" % i)
        b.configure(blks[m["par"] - 1] if m["par"] else None, "")
        blks.append(b)
        maps.append(b.create_map("map%d" % i, m["base"], m["nb"], EN[m["en"]], m["ba"]))
    for i, m in enumerate(cfg["maps"]):
        if m["par"]:
            maps[m["par"] - 1].add_submap(maps[i], m["off"])
    for x in cfg["items"]:
        b, mp = blks[x["map"] - 1], maps[x["map"] - 1]
        if x["kind"] == "reg":
            r = UVMReg("zz" + x["name"], x["nb"] * 8)
            r.configure(b)
            f = UVMRegField("f")
            f.configure(r, x["nb"] * 8, 0, x["acc"], False, 0, True, True, False)
            mp.add_reg(r, x["off"], "RW", x["un"])
        else:
            r = UVMMem("zz" + x["name"], x["size"], x["nb"] * 8)
            r.configure(b)
            mp.add_mem(r, x["off"], "RW", x["un"])
        items.append(r)
    return blks, maps, items


def execute(scn, ev):
    cfg = scn["cfg"]
    ev.append(dict(cfg, op="cfg"))
    utest.quiet()
    utest.root().set_report_severity_action(UVM_WARNING, UVM_DISPLAY)
    c = Catch()
    UVMReportCb.add(None, c)
    c.catch = lambda: (c.msgs.append(c.get_message()) if c.get_severity() == UVM_WARNING else None, 0)[1]
    blks, maps, items = build(cfg)
    names = {r.get_name(): x["name"] for r, x in zip(items, cfg["items"])}

    def confl():
        out = []
        for m in c.msgs:
            if "same address" in m or "overlaps" in m:
                p = sorted(names[n] for n in names if (n + "'") in m)
                if p not in out:
                    out.append(p)
        del c.msgs[:]
        return out

    def look():
        seen = set()
        for i, (r, x) in enumerate(zip(items, cfg["items"])):
            mp = maps[x["map"] - 1]
            e = {"op": "where", "i": i + 1, "addrs": [], "off": -1, "width": mp.get_n_bytes(), "range": {"lo": 0, "hi": 0, "stride": 0}}
            if x["kind"] == "reg":
                w = r.get_addresses(mp if i % 2 else None, e["addrs"])
                if e["addrs"]:
                    e["width"] = w
                    if r.get_address() != e["addrs"][0]:
                        e["addrs"] = ["odd"]
                e["off"] = r.get_offset(mp)
            else:
                info = mp.get_mem_map_info(r)
                if not info.unmapped:
                    e["addrs"] = list(info.addr)
                    g = info.mem_range
                    e["range"] = {"lo": g.min, "hi": g.max, "stride": g.stride}
                    e["off"] = info.offset
            ev.append(e)
            seen.update(a for a in e["addrs"] if isinstance(a, int))
        all_seen.update(seen)
        for a in sorted(all_seen | {a + 1 for a in seen})[:24]:
            for rd in (True, False):
                r = maps[0].get_reg_by_offset(a, rd)
                ev.append({"op": "find", "a": a, "rd": rd, "r": names.get(r.get_name(), "?") if r is not None else ""})
        for k, mp in enumerate(maps):
            ev.append({"op": "map", "m": k + 1, "base": mp.get_base_addr(), "root": maps.index(mp.get_root_map()) + 1})
    all_seen = set()
    locked = False
    for s in [dict(do="lock")] + scn["h"] if not scn.get("late") else scn["h"][:1] + [dict(do="lock")] + scn["h"][1:]:
        d = s["do"]
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"] = d
        if d == "lock":
            blks[0].lock_model()
            locked = True
        elif d == "move":
            r, x = items[s["i"] - 1], cfg["items"][s["i"] - 1]
            if x["kind"] != "reg":
                continue
            r.set_offset(maps[x["map"] - 1] if s["off"] % 2 else None, s["off"], s["un"] if s["off"] % 4 else int(s["un"]))
        elif d == "submap":
            maps[cfg["maps"][s["m"] - 1]["par"] - 1].set_submap_offset(maps[s["m"] - 1], s["off"])
        e["confl"] = confl() if locked else []
        ev.append(e)
        if locked:
            look()


def gen(g):
    return {"cfg": g["cfg"], "h": g["h"]}


def scenarios(rng, tier):
    out = []
    one = {"par": 0, "nb": 4, "en": 1, "ba": True, "base": 0, "off": 0}
    for accs in (("RO", "WO", "RW"), ("RO", "RW", "WO"), ("WO", "RO", "RO"), ("WO", "RO", "WO"), ("RW", "RW", "RW")):
        for i in (1, 2, 3):
            for un in (True, False):
                out.append({"cfg": {"maps": [one], "items": [
                    {"kind": "reg", "name": "r%d" % q, "map": 1, "off": 16, "nb": 4, "size": 1, "acc": a, "un": False}
                    for q, a in enumerate(accs)]}, "h": [{"do": "move", "i": i, "off": 32, "un": un}]})
    for _ in range(60 if tier == "quick" else 600):        # ranges next to, across and inside each other
        def it(q, kind):
            return {"kind": kind, "name": "%s%d" % (kind, q), "map": 1, "off": 64 + 4 * rng.randint(0, 10), "nb": 4, "acc": "RW", "un": False,
                    "size": rng.choice([1, 2, 3, 8]) if kind == "mem" else 1}
        a = it(1, "mem")
        b = it(2, rng.choice(["mem", "mem", "reg"]))
        if b["kind"] == "mem" and rng.random() < .5:
            a["size"], b["size"] = 8, rng.choice([1, 2])
            b["off"] = a["off"] + 4 * rng.randint(-2, 8)
        its = [a, b] if rng.random() < .5 else [b, a]
        out.append({"cfg": {"maps": [one], "items": its}, "h": [], "late": rng.random() < .5})
    for k in range(300 if tier == "quick" else 8000):
        nm = rng.choice([1, 2, 2, 3, 3, 4])
        maps = []
        for i in range(nm):
            maps.append({"par": 0 if i == 0 else rng.randint(1, i), "nb": rng.choice([1, 2, 3, 4, 4, 8]), "en": rng.choice([1, 1, 1, 2, 2, 3, 4]),
                         "ba": rng.random() < 0.7, "base": rng.choice([0, 0x1000]) if i == 0 else 0,
                         "off": 0 if i == 0 else rng.choice([0x100, 0x200, 0x400, 0x410])})
        items = []
        for i in range(rng.randint(1, 5)):
            m = rng.randint(1, nm)
            if rng.random() < 0.25:
                items.append({"kind": "mem", "name": "m%d" % i, "map": m, "off": rng.choice([0x40, 0x50, 0x80]), "nb": rng.choice([1, 2, 4, 8]),
                              "size": rng.choice([1, 2, 4, 5]), "acc": "RW", "un": False})
            else:
                items.append({"kind": "reg", "name": "r%d" % i, "map": m, "off": rng.choice([0, 0x10, 0x20, 0x48, 0x84]), "nb": rng.choice([1, 2, 3, 4, 4, 8]),
                              "size": 1, "acc": rng.choice(["RW", "RO", "WO"]), "un": rng.random() < 0.1})
        h = []
        for _ in range(rng.randint(0, 4)):
            if nm > 1 and rng.random() < 0.3:
                h.append({"do": "submap", "m": rng.randint(2, nm), "off": rng.choice([0x100, 0x300, 0x401])})
            else:
                h.append({"do": "move", "i": rng.randint(1, len(items)), "off": rng.choice([0, 0x10, 0x21, 0x30, 0x48]), "un": rng.random() < 0.25})
        out.append({"cfg": {"maps": maps, "items": items}, "h": h, "late": rng.random() < 0.2})
    return out


CHECKS = {"C28": Check(Part("RegMap", execute, scenarios, mc=["MC_RegMap"], gen=gen, gen_cap=(400, 8000), owns=[""]))}
