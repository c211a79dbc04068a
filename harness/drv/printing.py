"""Objects and components printed by the three printers (spec Printer)."""
import contextlib
import io
import random
import re
from registry import Part, Check
from drv import utest
import uvm
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_barrier import UVMBarrier
from uvm.base.uvm_printer import UVMTablePrinter, UVMTreePrinter, UVMLinePrinter
from uvm.base import uvm_object_globals as G
from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int, uvm_field_string,
                                           uvm_field_object, uvm_component_utils_begin, uvm_component_utils_end)

RAD = {"": G.UVM_NORADIX, "bin": G.UVM_BIN, "dec": G.UVM_DEC, "oct": G.UVM_OCT, "hex": G.UVM_HEX, "uns": G.UVM_UNSIGNED, "time": G.UVM_TIME}
# field -> kind, radix, printed, by reference; flags
FLD = {"a": ("int", "", True, False), "b": ("int", "bin", True, False), "d": ("int", "dec", True, False), "h": ("int", "oct", True, False),
       "np": ("int", "hex", False, False), "s": ("str", "", True, False), "c": ("obj", "", True, False), "r": ("obj", "", True, True),
       "ns": ("str", "", False, False), "x": ("int", "uns", True, False), "e": ("obj", "", True, False), "cp": ("int", "", False, False)}
OWN = {"PA": ["a", "b", "np", "s", "c"], "PB": ["d", "h", "r", "ns"], "PC": ["x", "e", "cp"], "PN": []}
ALL = {"PA": OWN["PA"], "PB": OWN["PA"] + OWN["PB"], "PC": OWN["PC"], "PN": []}


class Mix:
    script = ()

    def do_print(self, printer):
        for it in self.script:
            put(printer, it, self.heap)


class PA(Mix, UVMObject):
    def __init__(self, name="pa"):
        UVMObject.__init__(self, name)


class PB(PA):
    pass


class PC(Mix, UVMComponent):
    pass


class PN(Mix, UVMObject):
    def __init__(self, name="pn"):
        UVMObject.__init__(self, name)


def declare(T, beg, end):
    beg(T)
    for f in OWN[T.__name__]:
        kind, rad, p, ref = FLD[f]
        flags = G.UVM_ALL_ON | RAD[rad]
        if f == "cp":
            flags = G.UVM_COPY
        elif not p:
            flags |= G.UVM_NOPRINT
        if ref:
            flags |= G.UVM_REFERENCE
        {"int": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object}[kind](f, flags)
    end(T)


declare(PA, uvm_object_utils_begin, uvm_object_utils_end)
declare(PB, uvm_object_utils_begin, uvm_object_utils_end)
declare(PN, uvm_object_utils_begin, uvm_object_utils_end)
declare(PC, uvm_component_utils_begin, uvm_component_utils_end)


def put(p, it, heap):
    k, n = it["k"], it.get("n")
    if k == "int":
        kw = {"type_name": it["t"]} if it["t"] else {}
        {"f": p.print_field, "i": p.print_int, "fi": p.print_field_int}[it["via"]](n, it["v"], it["size"], RAD[it["rad"]], **kw)
    elif k == "time":
        p.print_time(n, it["v"])
    elif k == "str":
        p.print_string(n, it["v"])
    elif k == "real":
        p.print_real(n, it["v"])
    elif k == "gen":
        p.print_generic(n, it["t"], it["size"], it["v"])
    elif k == "range":
        p.print_array_range(it["lo"], it["hi"])
    elif k == "arr":
        p.print_array_header(n, it["size"], it["t"])
        for x in it["items"]:
            put(p, x, heap)
        p.print_array_footer(it["size"])
    elif k in ("obj", "hdr"):
        v = heap[it["o"]] if it["o"] else None
        (p.print_object if k == "obj" else p.print_object_header)(n, v)


def bits(v):
    return {"b": [v >> i & 1 for i in range(70)], "neg": v < 0}


def spec_item(it):
    k = it["k"]
    if k == "int":
        return {"k": k, "n": it["n"], "v": bits(it["v"]), "size": it["size"], "rad": it["rad"], "t": it["t"]}
    if k == "time":
        return {"k": "int", "n": it["n"], "v": bits(it["v"]), "size": 64, "rad": "time", "t": ""}
    if k == "real":
        return {"k": k, "n": it["n"], "v": "{}".format(it["v"])}
    if k == "gen":
        return {"k": k, "n": it["n"], "t": it["t"], "size": "..." if it["size"] == -2 else str(it["size"]), "v": it["v"]}
    if k == "range":
        lo, hi = it["lo"], it["hi"]
        none = lo == hi == -1 or (lo != -1 and hi != -1 and hi < lo)
        return {"k": k, "none": none}
    if k == "arr":
        return {"k": k, "n": it["n"], "t": it["t"], "size": it["size"], "items": [spec_item(x) for x in it["items"]]}
    return it


def lib(scn, o):
    """Rows the library's own do_print() produces."""
    def i(n, v, rad, t):
        return {"k": "int", "n": n, "v": v, "size": 32, "rad": rad, "t": t, "via": "fi"}
    return [i("threshold", o["thr"], "dec", "int"), i("num_waiters", 0, "dec", "int"), i("at_threshold", 0, "bin", "bit"),
            i("auto_reset", o["auto"], "bin", "bit")]


def describe(scn, heap):
    out = []
    for i, o in enumerate(scn["objs"], 1):
        obj = heap[i]
        fs = []
        for f in ALL.get(o["t"], []):
            kind, rad, p, ref = FLD[f]
            v = o["f"].get(f)
            if v is None:
                fs.append({"n": f, "k": "none", "p": p})
            else:
                fs.append({"n": f, "k": kind, "v": bits(v) if kind == "int" else v, "rad": rad, "p": p, "ref": ref})
        items = lib(scn, o) if o["t"] == "BAR" else o["items"]
        out.append({"t": obj.get_type_name(), "n": obj.get_name(), "full": obj.get_full_name(), "id": "@%d" % obj.get_inst_id(),
                    "comp": o["t"] == "PC", "kids": [j for j, x in enumerate(scn["objs"], 1) if x.get("p") == i],
                    "en": o.get("en", True), "f": fs, "items": [spec_item(x) for x in items]})
    return out


def fill(scn, heap):
    for i, o in enumerate(scn["objs"], 1):
        if o["t"] == "BAR":
            continue
        for f in ALL[o["t"]]:
            v = o["f"].get(f)
            setattr(heap[i], f, heap[v] if v is not None and FLD[f][0] == "obj" else v)
        heap[i].script = o["items"]
        heap[i].heap = heap
        if o["t"] == "PC":
            heap[i].print_enabled = o["en"]


def knobs(p, kn):
    k = p.knobs
    k.header, k.footer, k.full_name, k.identifier, k.type_name = kn["header"], kn["footer"], kn["full"], kn["ident"], kn["type"]
    k.size, k.depth, k.reference, k.show_root, k.indent = kn["size"], kn["depth"], kn["ref"], kn["root"], kn["indent"]
    k.show_radix, k.default_radix, k.prefix = kn["radix"], RAD[kn["defrad"]], kn["prefix"]
    k.separator = kn["sep"]
    k.bin_radix, k.oct_radix, k.dec_radix = kn["radstr"]["bin"], kn["radstr"]["oct"], kn["radstr"]["dec"]
    k.unsigned_radix, k.hex_radix = kn["radstr"]["uns"], kn["radstr"]["hex"]


class Unreadable(Exception):
    pass


def unprefix(text, kn, ev):
    out = []
    for ln in text.split("\n"):
        if not ln.startswith(kn["prefix"]):
            raise Unreadable("prefix")
        out.append(ln[len(kn["prefix"]):])
    if out[-1].strip():
        raise Unreadable("end")
    return out[:-1]


def read_table(text, kn):
    lines = unprefix(text, kn, None)
    cols, rows = [], []
    heads = [h for h, on in (("Name", kn["ident"]), ("Type", kn["type"]), ("Size", kn["size"]), ("Value", True)) if on]
    if kn["header"]:
        if not (set(lines[0]) <= set("-") and lines[1].split() == heads and lines[2] == lines[0]):
            raise Unreadable("header")
        if kn["footer"]:
            if lines.pop() != lines[0]:
                raise Unreadable("footer")
        cols.append([m.start() for m in re.finditer(r"\S+", lines[1])])
        lines = lines[3:]
    elif kn["footer"]:
        while lines and not lines[-1]:
            lines.pop()
    for ln in lines:
        ms = list(re.finditer(r"\S+", ln))
        ws = [m.group() for m in ms]
        if len(ws) != len(heads):
            raise Unreadable("row")
        c = [m.start() for m in ms]
        r = dict(zip(heads, ws))
        lvl = c[0] / kn["indent"] if kn["ident"] else -1
        rows.append({"l": int(lvl) if lvl == int(lvl) else -2, "n": r.get("Name", ""), "t": r.get("Type", ""), "s": r.get("Size", ""), "v": r["Value"]})
        if kn["ident"]:
            c[0] = 0
        cols.append(c)
    return rows, True, cols


def read_tree(text, kn, line):
    o, c = re.escape(kn["sep"][0]), re.escape(kn["sep"][1])
    one = r"(?:(?P<n>\.\.\.|\S+:) ?)?" if kn["ident"] else "(?P<n>)"
    one += r"(?:\((?P<t>[^() ]*(?:\([^()]*\)[^() ]*)?)\) )?" + (r"\((?P<s>[^() ]*)\) " if kn["size"] else "(?P<s>)")
    one += r"(?:(?P<o>%s)%s|(?P<v>\S+) )" % (o, " " if line else "")
    if line:
        if not text.endswith("\n"):
            raise Unreadable("end")
        text = text[:-1]
        if not text.startswith(kn["prefix"]):
            raise Unreadable("prefix")
        text = text[len(kn["prefix"]):]
        items, pos = [], 0
        while pos < len(text):
            m = re.compile(r" *%s " % c).match(text, pos) or re.compile(" *" + one + " ?").match(text, pos)
            if not m:
                raise Unreadable(text[pos:pos + 40])
            items.append((m, None))
            pos = m.end()
    else:
        items = []
        for ln in unprefix(text, kn, None):
            body = ln.lstrip(" ")
            m = re.fullmatch(c, body) or re.fullmatch(one, body)
            if not m:
                raise Unreadable(ln)
            items.append((m, len(ln) - len(body)))
    rows, lvl, closed = [], 0, True
    for m, ind in items:
        if not m.re.groups:
            lvl -= 1
            closed = closed and lvl >= 0 and ind in (None, lvl * kn["indent"])
            continue
        g = m.groupdict()
        closed = closed and (ind in (None, lvl * kn["indent"]) or not kn["ident"])
        n = g["n"] or ""
        rows.append({"l": lvl, "n": n[:-1] if n.endswith(":") else n, "t": g["t"] or "", "s": g["s"] or "", "v": "{" if g["o"] else g["v"]})
        if g["o"]:
            lvl += 1
    return rows, closed and lvl == 0, []


def spec_knobs(kn):
    return {k: kn[k] for k in ("full", "ident", "type", "size", "depth", "ref", "root", "radix", "defrad")} | {
        "radstr": dict(kn["radstr"], time="")}


def execute(scn, ev):
    utest.quiet()
    ev.append({"op": "cfg"})
    heap = [None]
    root = utest.root()
    for i, o in enumerate(scn["objs"]):
        if o["t"] == "PC":
            heap.append(PC(o["n"], heap[o["p"]] if o["p"] else root))
        elif o["t"] == "BAR":
            b = UVMBarrier(o["n"], o["thr"])
            b.set_auto_reset(o["auto"])
            heap.append(b)
        else:
            heap.append({"PA": PA, "PB": PB, "PN": PN}[o["t"]](o["n"]))
    printers = {}
    for p in scn["prints"]:
        if "set" in p:
            for i, f, v in p["set"]:
                scn["objs"][i - 1]["f"][f] = v
        fill(scn, heap)
        ev.append({"op": "heap", "objs": describe(scn, heap)})
        kn = p["kn"]
        pr = printers.get((p["how"], p["pi"]))
        if pr is None:
            pr = printers[p["how"], p["pi"]] = {"table": UVMTablePrinter, "tree": UVMTreePrinter, "line": UVMLinePrinter}[p["how"]]()
        knobs(pr, kn)
        if p["out"]:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                heap[p["o"]].print_obj(pr)
            text = out.getvalue()
            # what is displayed is a line of its own
            if text.endswith("\n"):
                text = text[:-1]
        else:
            text = heap[p["o"]].sprint(pr)
        e = {"op": "print", "o": p["o"], "kn": spec_knobs(kn), "how": p["how"]}
        try:
            e["rows"], e["closed"], e["cols"] = read_table(text, kn) if p["how"] == "table" else read_tree(text, kn, p["how"] == "line")
        except (Unreadable, IndexError) as x:
            e = {"op": "crash", "what": "unreadable %s: %s" % (x, text[:2000])}
        ev.append(e)


def rint(rng, size):
    c = rng.random()
    if c < .2:
        return rng.choice([0, 1, (1 << size) - 1, 1 << (size - 1), (1 << (size - 1)) - 1])
    if c < .3:
        return -rng.randint(1, 1 << (size - 1))
    return rng.getrandbits(rng.randint(1, size))


def rstr(rng):
    return rng.choice(["", "x", "hello", "two_words", "longer_string_value_%d" % rng.randint(0, 99)])


def item(rng, n, nobj, depth=0):
    k = rng.choice(["int", "int", "int", "time", "str", "real", "gen", "obj", "hdr"] + (["arr"] * 3 if depth < 2 else []))
    if k == "int":
        size = rng.choice([1, 3, 8, 16, 31, 32, 33, 64])
        return {"k": k, "n": n, "v": rint(rng, size), "size": size, "rad": rng.choice(list(RAD)), "t": rng.choice(["", "", "", "byte"]),
                "via": rng.choice(["f", "i", "fi"])}
    if k == "time":
        return {"k": k, "n": n, "v": rng.getrandbits(rng.randint(1, 40))}
    if k == "str":
        return {"k": k, "n": n, "v": rstr(rng)}
    if k == "real":
        return {"k": k, "n": n, "v": rng.choice([0.0, 1.5, -2.25, 1e10, 1 / 3])}
    if k == "gen":
        return {"k": k, "n": n, "t": rng.choice(["my_t", "uint"]), "size": rng.choice([0, 7, -2]), "v": rng.choice(["", "val", "RED"])}
    if k in ("obj", "hdr"):
        return {"k": k, "n": n, "o": rng.randint(0, nobj)}
    cnt = rng.choice([0, 1, 2, 3])
    items = []
    for j in range(cnt):
        items.append(item(rng, "[%d]" % j, nobj, depth + 1))
    if rng.random() < .3:
        lo, hi = rng.choice([(-1, -1), (1, 3), (3, 1), (-1, 2), (2, -1)])
        items.insert(rng.randint(0, len(items)), {"k": "range", "lo": lo, "hi": hi})
    return {"k": k, "n": n, "size": cnt, "t": rng.choice(["array", "queue", "da(integral)"]), "items": items}


def rknobs(rng, how):
    kn = {"header": True, "footer": True, "full": False, "ident": True, "type": True, "size": True, "depth": -1, "ref": True, "root": False,
          "indent": 2, "radix": True, "defrad": "hex", "prefix": "", "sep": "{}",
          "radstr": {"bin": "'b", "oct": "'o", "dec": "'d", "uns": "'d", "hex": "'h"}}
    if how != "table":
        kn.update(header=False, footer=False, type=False, size=False)
        if how == "line":
            kn["indent"] = 0
    if rng.random() < .6:
        for k in rng.sample(sorted(kn), rng.choice([1, 2, 4])):
            if k in ("header", "footer", "ident", "ref", "radix"):
                kn[k] = kn[k] and not (rng.random() < .6)
            elif k in ("full", "type", "size", "root"):
                kn[k] = rng.random() < .6
            elif k == "depth":
                kn[k] = rng.choice([0, 1, 2, 3])
            elif k == "indent" and how != "line":
                kn[k] = rng.choice([1, 2, 4])
            elif k == "defrad":
                kn[k] = rng.choice(["bin", "dec", "oct", "hex", "uns"])
            elif k == "prefix":
                kn[k] = rng.choice(["# ", "=>"])
            elif k == "sep":
                kn[k] = rng.choice(["<>", "{}"])
            elif k == "radstr":
                kn[k] = {"bin": "0b", "oct": "0o", "dec": "0d", "uns": "0u", "hex": "0x"}
    if not kn["header"]:
        kn["footer"] = kn["footer"] and how == "table"
    return kn


NAMES = ["o", "pkt", "cfg", "item", "x1", ""]


def scenarios(rng, tier):
    for _ in range(260 if tier == "quick" else 10000):
        n = rng.choice([1, 2, 3, 4, 6])
        objs = []
        comps = rng.random() < .4
        for i in range(1, n + 1):
            t = "PC" if comps and (i == 1 or rng.random() < .6) else rng.choice(["PA", "PA", "PB", "PN", "BAR"])
            o = {"t": t, "n": rng.choice(NAMES), "f": {}, "items": []}
            if t == "PC":
                up = [j for j, x in enumerate(objs, 1) if x["t"] == "PC"]
                o.update(n="c%d" % i, p=rng.choice([0] + up * 3) if up else 0, en=rng.random() < .85)
            elif t == "BAR":
                o.update(thr=rng.randint(0, 9), auto=rng.choice([0, 1]))
            objs.append(o)
        for o in objs:
            for f in ALL.get(o["t"], []):
                o["f"][f] = value(rng, f, n)
            if o["t"] != "BAR":
                o["items"] = [item(rng, "i%d" % j, n) for j in range(rng.choice([0, 0, 1, 2, 4]))]
        prints = []
        for _ in range(rng.choice([1, 2, 4])):
            how = rng.choice(["table", "table", "tree", "line"])
            p = {"o": rng.randint(1, n), "how": how, "pi": rng.choice([0, 0, 1]), "kn": rknobs(rng, how), "out": rng.random() < .2}
            if not objs[p["o"] - 1]["n"]:
                p["kn"]["root"] = False
            if rng.random() < .4:
                i = rng.randint(1, n)
                fs = ALL.get(objs[i - 1]["t"], [])
                if fs:
                    f = rng.choice(fs)
                    p["set"] = [[i, f, value(rng, f, n)]]
            prints.append(p)
        yield {"objs": objs, "prints": prints}


def value(rng, f, n):
    k = FLD[f][0]
    if rng.random() < .1:
        return None
    return rint(rng, 32) if k == "int" else rstr(rng) if k == "str" else rng.choice([None] + list(range(1, n + 1)))


def gen(h):
    """A behaviour of MC_Printer: the content of two objects, added step by step and printed by all printers."""
    objs = [{"t": "PN", "n": n, "f": {}, "items": []} for n in ("o", "x1")]
    for x in h:
        it = {"k": x["k"], "n": "i%d" % len(objs[x["o"] - 1]["items"])}
        if x["k"] in ("obj", "hdr"):
            it["o"] = x["v"]
        elif x["k"] == "arr":
            it.update(size=2, t="array", items=[{"k": "obj", "n": "[0]", "o": x["v"]},
                                                {"k": "int", "n": "[1]", "v": 5, "size": 8, "rad": "", "t": "", "via": "f"}])
        else:
            it.update(k="int", v=x["v"], size=8, rad="dec", t="", via="f")
        objs[x["o"] - 1]["items"].append(it)
    prints = []
    for how in ("table", "tree", "line"):
        kn = rknobs(random.Random(0), how) | {"depth": -1}
        for k in ("header", "footer", "type", "size"):
            kn[k] = how == "table"
        kn.update(full=False, ident=True, ref=True, root=False, indent=0 if how == "line" else 2, radix=True, defrad="hex", prefix="", sep="{}")
        for o in (1, 2):
            prints.append({"o": o, "how": how, "pi": 0, "kn": kn, "out": False})
            prints.append({"o": o, "how": how, "pi": 0, "kn": dict(kn, depth=len(h) % 3), "out": False})
    return {"objs": objs, "prints": prints}


CHECKS = {"C44": Check(Part("Printer", execute, scenarios, mc=["MC_Printer"], gen=gen, gen_cap=(60, 4000), wall=30))}
