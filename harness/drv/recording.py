"""Transactions and their recording in the text database (spec Recording)."""
import os
import re
import shutil
import tempfile
from cocotb.triggers import Timer
from drv import utest
from drv.utest import now
from registry import Part, Check
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_links import UVMParentChildLink, UVMRelatedLink
from uvm.base.uvm_object_globals import UVM_FULL, UVM_HIGH, UVM_LOW, UVM_NONE
from uvm.base.uvm_recorder import UVMRecorder
from uvm.base.uvm_tr_database import UVMTextTrDatabase
from uvm.base.uvm_tr_stream import UVMTrStream
from uvm.base.uvm_transaction import UVMTransaction
from uvm.macros import uvm_object_utils, uvm_component_utils

NT, NC = 3, 2
TNAMES = ["t1", "", "t 3"]
LINE = {
    "CREATE_STREAM": re.compile(r"\[NAME:(.*?) T:(.*?) SCOPE:(.*?) STREAM:(\d+)\]$"),
    "CLOSE_STREAM": re.compile(r"\{NAME:(.*?) T:(.*?) SCOPE:(.*?) STREAM:(\d+)\}$"),
    "FREE_STREAM": re.compile(r"\{NAME:(.*?) T:(.*?) SCOPE:(.*?) STREAM:(\d+)\}$"),
    "OPEN_RECORDER": re.compile(r"\{TXH:(\d+) STREAM:(\d+) NAME:(.*?) TIME:(\S+) TYPE=\"(.*?)\"\}$"),
    "CLOSE_RECORDER": re.compile(r"\{TXH:(\d+) TIME=(\S+)\}$"),
    "FREE_RECORDER": re.compile(r"\{TXH:(\d+)\}$"),
    "SET_ATTR": re.compile(r"\{TXH:(\d+) NAME:(.*?) VALUE:(.*?)\s+RADIX:(\S+) BITS=(\d+)\}$"),
    "LINK": re.compile(r"\{TXH1:(\d+) TXH2:(\d+) RELATION=(.*?)\}$"),
}


class Tx(UVMTransaction):
    log = None

    def __init__(self, name="Tx"):
        super().__init__(name)
        self.no, self.v, self.sub, self.inner = 0, 0, None, False

    def do_record(self, recorder):
        recorder.record_field_int("v", self.v, 32)
        recorder.record_string("s", "str%d" % self.v)
        if not self.inner:
            recorder.record_object("sub", self.sub)

    def do_accept_tr(self):
        Tx.log("t%d" % self.no, 1, "do_accept t%d" % self.no)

    def do_begin_tr(self):
        Tx.log("t%d" % self.no, 3, "do_begin t%d" % self.no)

    def do_end_tr(self):
        Tx.log("t%d" % self.no, 1, "do_end t%d" % self.no)


uvm_object_utils(Tx)


class RComp(UVMComponent):
    no = 0
    rid = None

    def do_accept_tr(self, tr):
        Tx.log("c%d" % self.no, 1, "do_accept_tr c%d t%d" % (self.no, tr.no))

    def do_begin_tr(self, tr, stream_name, tr_handle):
        Tx.log("c%d" % self.no, 1, ("do_begin_tr", self.no, tr.no, stream_name, tr_handle))

    def do_end_tr(self, tr, tr_handle):
        Tx.log("c%d" % self.no, 1, ("do_end_tr", self.no, tr.no, tr_handle))


uvm_component_utils(RComp)


class Seen:
    """A callback of an event."""
    def __init__(self, fn):
        self.fn = fn

    def pre_trigger(self, e, data):
        return 0

    def post_trigger(self, e, data):
        self.fn(data)


def execute(scn, ev):
    d = tempfile.mkdtemp(prefix="rec", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        _execute(scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _execute(scn, ev, tmp):
    db = UVMTextTrDatabase("db")
    db.set_file_name(os.path.join(tmp, "f0"))
    UVMCoreService.get().set_default_tr_database(db)
    pend, pos, recs, strs, rh, sh = [], {}, [], [], {}, {}
    Tx.log = lambda r, k, x: pend.append((r, k, x))
    trs, comps = [], []

    def num(s):
        f = float(s)
        return "%d" % f if f == int(f) else s

    def line(txt, log):
        m = re.match(r"\s*([A-Z_]+) @(\S+) (.*)$", txt)
        if not m or m.group(1) not in LINE:
            log.append({"r": "r?", "k": 0, "x": "unreadable " + txt})
            return
        kind, g = m.group(1), LINE[m.group(1)].match(m.group(3))
        if not g:
            log.append({"r": "r?", "k": 0, "x": "unreadable " + txt})
            return
        g = g.groups()
        if kind == "CREATE_STREAM":
            strs.append(int(g[3]))
            sh[int(g[3])] = len(strs)
            r, k, x = "s%d" % len(strs), 1, "stream %d %s %s %s" % (len(strs), g[0], g[1], g[2])
        elif kind in ("CLOSE_STREAM", "FREE_STREAM"):
            s = sh.get(int(g[3]), -1)
            r, k, x = "s%d" % s, 2 if kind[0] == "C" else 3, "%s-stream %d" % (kind.split("_")[0].lower(), s)
        elif kind == "OPEN_RECORDER":
            recs.append(int(g[0]))
            rh[int(g[0])] = len(recs)
            i = len(recs)
            r, k, x = "r%d" % i, 1, "open %d %d %s %s %s" % (i, sh.get(int(g[1]), -1), g[2], g[4], num(g[3]))
        elif kind == "LINK":
            a, b = rh.get(int(g[0]), -1), rh.get(int(g[1]), -1)
            r, k, x = "r%d" % b, 2, "link %d %d %s" % (a, b, g[2])
        else:
            i = rh.get(int(g[0]), -1)
            r = "r%d" % i
            if kind == "CLOSE_RECORDER":
                k, x = 3, "close %d %s" % (i, num(g[1]))
            elif kind == "FREE_RECORDER":
                k, x = 4, "free %d" % i
            else:
                n, v, rad = g[1], g[2], g[3]
                if rad == "UVM_STRING" and int(g[4]) != 8 + len(v):
                    v += " bits?"
                if n.split(".")[-1] == "sub":
                    v = next(("item%d" % t.no for t in subs if str(t.get_inst_id()) == v), "none" if v == "0" else "?")
                elif rad in ("UVM_HEX", "h"):
                    v = str(int(v, 16))
                k, x = 2, "attr %d %s %s" % (i, n, v)
        if num(m.group(2)) != str(now()):
            x += " @" + m.group(2)
        log.append({"r": r, "k": k, "x": x})

    def flush(e):
        f = getattr(db, "m_file", None)
        if hasattr(f, "flush") and not getattr(f, "closed", False):
            f.flush()
        log, files = [], []
        for n in sorted(os.listdir(tmp)):
            with open(os.path.join(tmp, n)) as fh:
                fh.seek(pos.get(n, 0))
                new = fh.read()
                pos[n] = fh.tell()
            if new:
                files.append(n)
            for t in new.splitlines():
                line(t, log)
        for r, k, x in pend:
            if isinstance(x, tuple):
                x = ("%s c%d t%d" % x[:3]) + "".join(" %s" % y for y in x[3:-1]) + " %d" % (rh.get(x[-1], -9) if x[-1] else 0)
            log.append({"r": r, "k": k, "x": x})
        pend.clear()
        e["log"], e["files"] = log, files

    def life(o):
        return "freed" if o is None else "open" if o.is_open() else "closed" if o.is_closed() else "?"

    def observe(e):
        e["tr"] = [[int(t.get_accept_time()), int(t.get_begin_time()), int(t.get_end_time()), 1 if t.is_active() else 0]
                   for t in trs]
        e["th"] = [rh.get(t.get_tr_handle(), -9) if t.get_tr_handle() else 0 for t in trs]
        e["rs"] = []
        for h in recs:
            o = UVMRecorder.get_recorder_from_handle(h)
            e["rs"].append([life(o), int(o.get_open_time()) if o else 0, int(o.get_close_time()) if o else 0])
        e["ss"] = [life(UVMTrStream.get_stream_from_handle(h)) for h in strs]
        e["open"] = bool(db.is_open())

    ch = {}      # (component, transaction) begun and not ended
    busy = {}    # transaction begun with its own recording on

    def do(s):
        op = s["do"]
        t = trs[s["k"] - 1] if s.get("k") else None
        c = comps[s["c"] - 1] if s.get("c") else None
        e = {k: v for k, v in s.items() if k != "do"}
        e["op"], e["t"], ret = op, now(), 0
        if op == "accept":
            a = [s["at"]] if s["at"] else []
            c.accept_tr(t, *a) if c else t.accept_tr(*a)
        elif op == "begin":
            e["par"] = par = s["par"] if s["par"] <= len(recs) else 0
            if par and rh.get(t.get_tr_handle()) == par:   # ended by this call
                e["par"] = par = 0
            h = recs[par - 1] if par else 0
            if c and ch.get((s["c"], s["k"])):
                return
            if c:
                if s.get("child", par):
                    ret = c.begin_child_tr(t, h, s["n"], s["label"], s["desc"], s["at"])
                else:
                    ret = c.begin_tr(t, s["n"], s["label"], s["desc"], s["at"], h)
                ch[(s["c"], s["k"])] = True
            else:
                ret = t.begin_child_tr(s["at"], h) if par else t.begin_tr(s["at"])
            busy[s["k"]] = True
            e["child"] = 0
        elif op == "end":
            if c:
                c.end_tr(t, s["at"], 1 if s["free"] else 0)
                ch[(s["c"], s["k"])] = False
            else:
                t.end_tr(s["at"], 1 if s["free"] else 0)
            busy[s["k"]] = False
        elif op == "rec":
            f = c.record_error_tr if s.get("err") else c.record_event_tr
            ret = f(s["n"], t, s["label"], s["desc"], s["at"], 1 if s["keep"] else 0)
        elif op == "stream":
            x = c.get_tr_stream(s["n"], s["ty"])
            flush(e)
            ret = x.get_handle()
        elif op == "freestream":
            if s["s"] > len(strs):
                return
            x = UVMTrStream.get_stream_from_handle(strs[s["s"] - 1])
            if x is None:
                return
            c.free_tr_stream(x)
        elif op == "enable":
            if s["s"] > len(strs) or busy.get(s["k"]):
                return
            if s["s"] == 0:
                t.disable_recording()
            else:
                x = UVMTrStream.get_stream_from_handle(strs[s["s"] - 1])
                if x is None:
                    return
                t.enable_recording(x)
        elif op == "detail":
            c.recording_detail = s.get("lvl", UVM_FULL) if s["on"] else UVM_NONE
            e.pop("lvl", None)
        elif op == "set":
            t.v = s["v"]
            t.sub = subs[s["sub"] - 1] if s["sub"] else None
        elif op == "link":
            if not (0 < s["a"] <= len(recs) and 0 < s["b"] <= len(recs)):
                return
            a, b = (UVMRecorder.get_recorder_from_handle(recs[s[k] - 1]) for k in "ab")
            if a is None or b is None or a is b or not db.is_open():
                return
            db.establish_link((UVMParentChildLink if s["kind"] == "child" else UVMRelatedLink).get_link(a, b))
        elif op == "freerec":
            if s["r"] > len(recs):
                return
            r = UVMRecorder.get_recorder_from_handle(recs[s["r"] - 1])
            if r is None:
                return
            r.free()
        elif op == "close":
            db.close_db()
        elif op == "fname":
            db.set_file_name(os.path.join(tmp, s["f"]))
        n = utest.errors()
        if "log" not in e:
            flush(e)
        e["err"] = n - box[0]
        box[0] = n
        e["ret"] = (sh if op == "stream" else rh).get(ret, -9) if ret else 0
        observe(e)
        ev.append(e)
    box, subs = [0], []

    def build(t):
        for i in range(NC):
            c = RComp("c%d" % (i + 1), t if i == 0 else comps[0])
            c.no = i + 1
            comps.append(c)
        for i in range(NT):
            x = Tx(TNAMES[i])
            x.no = i + 1
            trs.append(x)
        for i in range(2):
            x = Tx("sub%d" % (i + 1))
            x.no, x.v, x.inner = i + 1, 1000 + i + 1, True
            subs.append(x)
        ev.append({"op": "cfg", "cn": [c.get_full_name() for c in comps], "tn": [n or "Tx" for n in TNAMES]})

    async def main(t, phase):
        for c in comps:
            for n in ("accept_tr", "begin_tr", "end_tr"):
                def fn(data, n=n, c=c):
                    Tx.log("c%d" % c.no, 2, "%s c%d" % (n, c.no) + (" t%d" % data.no if n == "begin_tr" and isinstance(data, Tx) else ""))
                c.event_pool.get(n).add_callback(Seen(fn))
        for x in trs:
            for n, m, k in (("accept", "accepted", 2), ("begin", "begun", 4), ("end", "ended", 2)):
                x.get_event_pool().get(n).add_callback(Seen(lambda data, m=m, x=x, k=k: Tx.log("t%d" % x.no, k, "%s t%d" % (m, x.no))))
        box[0] = utest.errors()
        for s in scn["h"]:
            if s["do"] == "tick":
                await Timer(s["n"], "NS")
            else:
                do(s)
    utest.run({"build": build, "run": main}, ev, seed=1)
    db.close_db()


def gen(g):
    out, t = [], 0
    for s in g:
        s = {k: v for k, v in s.items() if k != "op"}
        n = s.pop("t")
        if n > t:
            out.append({"do": "tick", "n": n - t})
            t = n
        out.append(s)
    return {"h": out}


NAMES = ["", "main", "main", "a", "b"]


def scenarios(rng, tier):
    for _ in range(350 if tier == "quick" else 10000):
        h = []
        for i in range(NC):
            if rng.random() < .75:
                h.append({"do": "detail", "c": i + 1, "on": True, "lvl": rng.choice([UVM_FULL, UVM_HIGH, UVM_LOW])})
        if rng.random() < .5:
            h.append({"do": "stream", "c": 1, "n": "own", "ty": "T"})
            for k in range(NT):
                if rng.random() < .6:
                    h.append({"do": "enable", "k": k + 1, "s": 1})
        nr = 0
        for _ in range(rng.randrange(4, 26)):
            x = rng.random()
            k, c = rng.randrange(1, NT + 1), rng.randrange(0, NC + 1)
            at = rng.choice([0, 0, 0, 3, 50])
            if x < .15:
                h.append({"do": "tick", "n": rng.choice([1, 2, 5])})
            elif x < .22:
                h.append({"do": "accept", "k": k, "c": c, "at": at})
            elif x < .47:
                h.append({"do": "begin", "k": k, "c": c, "at": at, "n": rng.choice(NAMES), "label": rng.choice(["", "lab"]),
                          "desc": rng.choice(["", "some desc"]), "par": rng.randrange(1, nr + 2) if rng.random() < .5 else 0,
                          "child": rng.random() < .5})
                nr += 1
            elif x < .65:
                h.append({"do": "end", "k": k, "c": c, "at": at, "free": rng.random() < .7})
            elif x < .75:
                h.append({"do": "rec", "k": rng.choice([0, k]), "c": rng.randrange(1, NC + 1), "at": at, "n": rng.choice(NAMES),
                          "label": rng.choice(["error_tr", "ev"]), "desc": rng.choice(["", "why not"]), "keep": rng.random() < .5,
                          "err": rng.random() < .5})
                nr += 1
            elif x < .79:
                h.append({"do": "stream", "c": rng.randrange(1, NC + 1), "n": rng.choice(["a", "b"]), "ty": rng.choice(["", "T"])})
            elif x < .82:
                h.append({"do": "freestream", "c": rng.randrange(1, NC + 1), "s": rng.randrange(1, 6)})
            elif x < .85:
                h.append({"do": "enable", "k": k, "s": rng.randrange(0, 5)})
            elif x < .87:
                h.append({"do": "detail", "c": rng.randrange(1, NC + 1), "on": rng.random() < .5})
            elif x < .91:
                h.append({"do": "set", "k": k, "v": rng.randrange(0, 300), "sub": rng.choice([0, 1, 2])})
            elif x < .94:
                h.append({"do": "link", "a": rng.randrange(1, nr + 2), "b": rng.randrange(1, nr + 2), "kind": rng.choice(["child", ""])})
            elif x < .96:
                h.append({"do": "freerec", "r": rng.randrange(1, nr + 2)})
            elif x < .98:
                h.append({"do": "close"})
            else:
                h.append({"do": "fname", "f": rng.choice(["f1", "f2"])})
        yield {"h": h}


CHECKS = {"C37": Check(Part("Recording", execute, scenarios, mc=["MC_Recording"], gen=gen, gen_cap=(500, 8000)))}
