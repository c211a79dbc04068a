"""Packing and unpacking (spec Packer)."""
from drv import utest
from drv.reg_field import bits, num
from registry import Part, Check
from uvm.base import uvm_global_vars
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_ALL_ON, UVM_NOPACK
from uvm.base.uvm_packer import UVMPacker
from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                           uvm_field_string, uvm_field_object)
MAC = {"bits": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object, "null": uvm_field_object}
CLASSES = {}


def do_pack(self, packer):
    for i, (k, n, m) in enumerate(self.SIG):
        v = getattr(self, "f%d" % i)
        if m:
            continue
        if k == "bits":
            (packer.pack_field if i % 2 else packer.pack_field_int)(v, n)
        elif k == "str":
            packer.pack_string(v)
        else:
            packer.pack_object(v)


def do_unpack(self, packer):
    for i, (k, n, m) in enumerate(self.SIG):
        v = getattr(self, "f%d" % i)
        if m:
            continue
        if k == "bits":
            setattr(self, "f%d" % i, (packer.unpack_field if i % 2 else packer.unpack_field_int)(n))
        elif k == "str":
            setattr(self, "f%d" % i, packer.unpack_string())
        else:
            packer.unpack_object(v)


def init(self, name="p"):
    UVMObject.__init__(self, name)
    self.never = 77


def klass(sig):
    """A class whose first fields are registered by macros and whose others are packed by do_pack."""
    if sig not in CLASSES:
        T = type("P%d" % len(CLASSES), (UVMObject,), {"SIG": sig, "do_pack": do_pack, "do_unpack": do_unpack, "__init__": init})
        uvm_object_utils_begin(T)
        for i, (k, n, m) in enumerate(sig):
            if m:
                MAC[k]("f%d" % i, UVM_ALL_ON)
        uvm_field_int("never", UVM_ALL_ON | UVM_NOPACK)
        uvm_object_utils_end(T)
        CLASSES[sig] = T
    return CLASSES[sig]


def build(x):
    if x["k"] == "bits":
        return num(x["v"])
    if x["k"] == "str":
        return bytes(x["v"]).decode()
    if x["k"] == "null":
        return None
    o = klass(tuple((q["k"], q.get("n", 0), q.get("m", False)) for q in x["v"]))("o")
    for i, q in enumerate(x["v"]):
        setattr(o, "f%d" % i, build(q))
    return o


def dump(x, v):
    """The value v as a tree of the shape of x."""
    if x["k"] == "bits":
        return dict(x, v=wide(v, x["n"]))
    if x["k"] == "str":
        return dict(x, v=list(v.encode()))
    if x["k"] == "null":
        return x if v is None else {"k": "some"}
    assert v.never == 77
    return dict(x, v=[dump(q, getattr(v, "f%d" % i)) for i, q in enumerate(x["v"])])


def wide(v, n):
    """n bits of v, and more if v has more."""
    return bits(v, max(n, v.bit_length())) if v >= 0 else ["negative"]


def execute(scn, ev):
    cfg = scn["cfg"]
    ev.append(dict(cfg, op="cfg"))
    utest.quiet()
    pk = UVMPacker()
    if scn.get("dflt"):
        pk = uvm_global_vars.uvm_default_packer
    pk.big_endian, pk.use_metadata = int(cfg["be"]), int(cfg["md"])
    arg = None if scn.get("dflt") else pk
    data = None

    def groups(x, w):
        return [wide(q, w) for q in x]
    for s in scn["h"]:
        d = s["do"]
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"] = d
        e0 = utest.errors()
        if d == "reset":
            pk.reset()
        elif d == "pack":
            x = s["v"]
            if x["k"] == "bits":
                v = num(x["v"])
                (pk.pack_field if s.get("alt") else pk.pack_field_int)(v - (1 << len(x["v"])) if s.get("neg") else v, x["n"])
                if s.get("neg"):
                    e["v"] = dict(x, v=x["v"] + [1] * max(0, x["n"] - len(x["v"])))
            elif x["k"] == "str":
                pk.pack_string(build(x))
            else:
                pk.pack_object(build(x))
        elif d == "packarr":
            w = s["w"]
            a = [num(s["v"][i:i + w]) for i in range(0, len(s["v"]), w)]
            (pk.pack_bytes if w == 8 else pk.pack_ints)(*([a] if s["size"] == -1 and s.get("alt") else [a, s["size"]]))
        elif d == "done":
            pk.set_packed_size()
            n = pk.get_packed_size()
            e.update(size=n, bits=wide(pk.get_bits(), n), bytes=groups(pk.get_bytes(), 8), ints=groups(pk.get_ints(), 32))
            one = [pk.get_bit(i) for i in range(n)]
            if one != e["bits"] or pk.get_packed_bits() != pk.get_bits():
                e["bits"] = {"bit": one}
        elif d == "give":
            if s["how"] == "bits":
                v = pk.get_bits()
                pk.reset()
                pk.put_bits(v)
            elif s["how"] == "bytes":
                v = pk.get_bytes()
                pk.reset()
                pk.put_bytes(v)
            elif s["how"] == "ints":
                v = pk.get_ints()
                pk.reset()
                pk.put_ints(v)
        elif d == "unpack":
            x = s["old"]
            if x["k"] == "bits":
                r = (pk.unpack_field if s.get("alt") else pk.unpack_field_int)(x["n"])
            elif x["k"] == "str":
                r = pk.unpack_string()
            else:
                r = build(x)
                pk.unpack_object(r)
            e["r"] = dump(x, r)
        elif d == "unpackarr":
            w = s["w"]
            a = [num(s["v"][i:i + w]) for i in range(0, len(s["v"]), w)]
            (pk.unpack_bytes if w == 8 else pk.unpack_ints)(*([a] if s["size"] == -1 and s.get("alt") else [a, s["size"]]))
            e["r"] = [b for q in a for b in wide(q, w)]
        elif d == "unpackstr":
            e["r"] = list(pk.unpack_string(s["num"]).encode())
        elif d == "opack":
            o = build(s["v"])
            if s["how"] == "bits":
                e["size"], data = o.pack(arg)
                e["data"] = wide(data, e["size"])
            else:
                data = []
                e["size"] = (o.pack_bytes if s["how"] == "bytes" else o.pack_ints)(data, arg)
                e["data"] = groups(data, 8 if s["how"] == "bytes" else 32)
            if dump(s["v"], o) != s["v"]:
                e["data"] = "object changed"
        elif d == "ounpack":
            o = build(s["old"])
            e["size"] = {"bits": o.unpack, "bytes": o.unpack_bytes, "ints": o.unpack_ints}[s["how"]](data, arg)
            e["r"] = dump(s["old"], o)
        e["err"] = utest.errors() - e0
        for k in ("alt", "neg"):
            e.pop(k, None)
        ev.append(e)


def blank(x, rng=None):
    if x["k"] == "bits":
        return dict(x, v=[rng.getrandbits(1) if rng else 0 for _ in range(x["n"])])
    if x["k"] == "str":
        return dict(x, v=[])
    if x["k"] == "null":
        return x
    return dict(x, v=[blank(q, rng) for q in x["v"]])


def readback(x, md, rng=None):
    if x["k"] == "str":
        # without metadata a string does not tell where it ends
        return {"do": "unpackstr", "num": -1 if md else len(x["v"])}
    return {"do": "unpack", "old": blank(x, rng), "alt": bool(rng and rng.random() < .5)}


def gen(g):
    md = g["cfg"]["md"]
    h = [{"do": "pack", "v": x} for x in g["xs"]] + [{"do": "done"}]
    for how in ("same", "bits", "bytes", "ints"):
        h.append({"do": "give", "how": how})
        h += [readback(x, md) for x in g["xs"]]
    return {"cfg": g["cfg"], "h": [s for s in h if s != {"do": "give", "how": "same"}]}


def rbits(rng, n):
    p = rng.choice([.5, .5, .05, .95, 0, 1])
    return [int(rng.random() < p) for _ in range(n)]


def rstr(rng):
    s = "".join(rng.choice("aZ09 ~é€") for _ in range(rng.choice([0, 1, 2, 3, 7])))
    return {"k": "str", "v": list(s.encode())}


WID = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100]


def tree(rng, depth, strs):
    its = []
    for m in (True, False):
        for _ in range(rng.randint(0, 3)):
            c = rng.random()
            if c < .25 and depth:
                q = tree(rng, depth - 1, strs) if rng.random() < .7 else {"k": "null"}
            elif c < .4 and strs:
                q = rstr(rng)
            else:
                n = 32 if m else rng.choice(WID)
                q = {"k": "bits", "n": n, "v": rbits(rng, n)}
            its.append(dict(q, m=m))
    return {"k": "obj", "v": its}


def reshape(rng, x):
    """A value like x, other nulls."""
    if x["k"] == "obj":
        if rng.random() < .1:
            return {k: v for k, v in x.items() if k == "m"} | {"k": "null"}
        return dict(x, v=[reshape(rng, q) for q in x["v"]])
    return x


def scenarios(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        cfg = {"be": rng.random() < .5, "md": rng.random() < .5}
        h = []
        dflt = rng.random() < .2
        for _ in range(rng.randint(1, 3)):
            h.append({"do": "reset"})
            if rng.random() < .4:
                other = rng.random() < .3 and cfg["md"]
                x = tree(rng, 2, cfg["md"] and not other)
                how = rng.choice(["bits", "bytes", "ints"])
                h.append({"do": "opack", "how": how, "v": x})
                y = blank(x, rng)
                if other:
                    y = dict(y, v=[reshape(rng, q) for q in y["v"]])
                h.append({"do": "ounpack", "how": how, "old": y})
                continue
            back, strs = [], False
            for _ in range(rng.randint(1, 8)):
                c = rng.random()
                if c < .45:
                    n = rng.choice(WID)
                    x = {"k": "bits", "n": n, "v": rbits(rng, n)}
                    g = dict(x)
                    o = {"do": "pack", "v": x, "alt": rng.random() < .5}
                    if rng.random() < .2:
                        x["v"] = rbits(rng, rng.randint(1, 40))
                        o["neg"] = rng.random() < .5
                    h.append(o)
                    back.append(readback(g, cfg["md"], rng))
                elif c < .6:
                    x = rstr(rng)
                    strs = True
                    h.append({"do": "pack", "v": x})
                    back.append(readback(x, cfg["md"], rng))
                elif c < .75:
                    x = tree(rng, 1, cfg["md"]) if rng.random() < .8 else {"k": "null"}
                    strs = True
                    h.append({"do": "pack", "v": x})
                    back.append(readback(x, cfg["md"], rng))
                else:
                    w, k = rng.choice([8, 32]), rng.randint(0, 5)
                    size = rng.choice([-1, -1, w * k, rng.randint(0, w * k), w * k + 1])
                    h.append({"do": "packarr", "w": w, "v": rbits(rng, w * k), "size": size, "alt": rng.random() < .5})
                    back.append({"do": "unpackarr", "w": w, "v": rbits(rng, w * k), "size": size, "alt": rng.random() < .5})
            h.append({"do": "done"})
            if rng.random() < .5:
                h.append({"do": "give", "how": rng.choice(["bits", "bytes", "ints"])})
            if not strs and rng.random() < .3:
                # read as something else
                for _ in range(rng.randint(1, 8)):
                    if rng.random() < .6:
                        n = rng.choice(WID)
                        back.append({"do": "unpack", "old": {"k": "bits", "n": n, "v": [0] * n}})
                    else:
                        w, k = rng.choice([8, 32]), rng.randint(0, 4)
                        back.append({"do": "unpackarr", "w": w, "v": rbits(rng, w * k), "size": rng.randint(-1, w * k)})
                rng.shuffle(back)
            h += back
        yield {"cfg": cfg, "h": h, "dflt": dflt}


CHECKS = {"C25": Check(Part("Packer", execute, scenarios, mc=["MC_Packer"], gen=gen, gen_cap=(800, 20000)))}
