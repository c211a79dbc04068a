"""Reports, the report server and report catchers (spec Report)."""
import io
import re
import fakesim  # noqa: F401
from drv import utest
from registry import Part, Check
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_callback import UVMCallback, UVMCallbacksBase
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_exceptions import UVMFinishError
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, THROW, CAUGHT
from uvm.base import uvm_globals as g
from uvm.macros.uvm_message_defines import uvm_info, uvm_warning, uvm_error, uvm_fatal, uvm_info_context, uvm_error_context

SEVS = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
LINE = re.compile(r"^(UVM_\w+) (?:(.*?)\((\d+)\) )?@ (.*?): (\S*?)(?:@@(\S+))? \[(\S*)\] ((?s:.*))$")
DYING = [False]
ABORT = []


class Comp(UVMComponent):
    def pre_abort(self):
        DYING[0] = True
        ABORT.append(self.idx)

    def macro(self, sev, id, msg, verb):
        if sev == 0:
            uvm_info(id, msg, verb)
        elif sev == 1:
            uvm_warning(id, msg)
        elif sev == 2:
            uvm_error(id, msg)
        else:
            uvm_fatal(id, msg)


def top_macro(sev, id, msg, verb):
    if sev == 0:
        uvm_info(id, msg, verb)
    elif sev == 1:
        uvm_warning(id, msg)
    elif sev == 2:
        uvm_error(id, msg)
    else:
        uvm_fatal(id, msg)


class Other(UVMCallback):
    pass


class Catcher(UVMReportCatcher):
    rule = None
    idx = 0
    seen = []

    def catch(self):
        x = self.rule
        if DYING[0]:
            return THROW
        Catcher.seen.append({"k": self.idx, "sev": self.get_severity(), "id": self.get_id(), "msg": next((v for k, v in MSGS.items() if k in self.get_message()), self.get_message()),
                             "act": self.get_action(), "verb": self.get_verbosity()})
        if (x["sev"] != -1 and x["sev"] != self.get_severity()) or (x["id"] and x["id"] != self.get_id()):
            return THROW
        if x["nsev"] != -1:
            self.set_severity(x["nsev"])
        if x["nid"]:
            self.set_id(x["nid"])
        if x["nmsg"]:
            self.set_message(x["nmsg"])
        if x["nverb"] != -1:
            self.set_verbosity(x["nverb"])
        if x["nact"] != -1:
            self.set_action(x["nact"])
        if x["extra"] == 0:
            self.uvm_report_info("EXTRA", "extra", x["everb"])
        elif x["extra"] != -1:
            [0, self.uvm_report_warning, self.uvm_report_error, self.uvm_report_fatal][x["extra"]]("EXTRA", "extra", x["everb"])
        if x["issue"]:
            self.issue()
        return x["ret"]


MSGS = {"must return THROW or CAUGHT": "bad-return", "is not overridable": "nomaxquitovr"}


def parse(line):
    m = LINE.match(line)
    if not m:
        return {"sev": -1, "id": "?", "msg": line, "comp": "?"}
    msg = m.group(8)
    for k, v in MSGS.items():
        if k in msg:
            msg = v
    return {"sev": SEVS.index(m.group(1)), "id": m.group(7), "msg": msg, "comp": m.group(5)}


def execute(scn, ev):
    DYING[0] = False
    root = utest.root()
    srv = UVMCoreService.get().get_report_server()
    comps = [root]
    for i, p in enumerate(scn["par"][1:]):
        comps.append(Comp("c%d" % (i + 2), comps[p - 1] if p > 1 else None))
        comps[-1].idx = i + 2
    outs = []
    files = [0]

    def out(to, text):
        if not DYING[0]:
            outs.append({"to": to, **parse(text)})
    srv.set_logger(lambda s: out(0, s))

    class F(io.StringIO):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def write(self, s):
            assert s.endswith("\n")
            out(self.n, s[:-1])
            return len(s)
    for i in range(1, 4):
        files.append(F(i))
    base = [srv.get_severity_count(s) for s in range(4)]
    ids = {}
    q = []
    srv.get_id_set(q)
    for i in q:
        ids[i] = srv.get_id_count(i)
    UVMCallbacksBase.m_tracing = False
    rules = scn["rules"]
    cats = []
    for i, x in enumerate(rules):
        c = Catcher("k%d" % i) if x["kind"] == "catcher" else Other("k%d" % i)
        c.rule, c.idx = x, i + 1
        cats.append(c)
    Catcher.seen = []
    ev.append({"op": "cfg", "par": scn["par"], "name": [c.get_full_name() or "reporter" for c in comps], "base": base, "ids": ids,
               "quit": srv.get_quit_count(), "max": srv.get_max_quit_count(), "rules": rules})
    quotes = []

    def msg(s):
        c = comps[s["c"] - 1]
        sev, id, m, verb, how = s["sev"], s["id"], s["msg"], s["verb"], s["how"]
        if how == "macro":
            if c is root:
                top_macro(sev, id, m, verb)
            else:
                c.macro(sev, id, m, verb)
            return verb if sev == 0 else 0
        if how == "glob" and c is root:
            getattr(g, "uvm_report_" + ["info", "warning", "error", "fatal"][sev])(id, m, verb)
            return verb
        if how == "ctx" and sev in (0, 2):
            if sev == 0:
                uvm_info_context(id, m, verb, c)
                return verb
            uvm_error_context(id, m, c)
            return 0
        if how == "default":
            getattr(c, "uvm_report_" + ["info", "warning", "error", "fatal"][sev])(id, m)
            return [200, 200, 100, 0][sev]
        if how == "default2":
            c.uvm_report(sev, id, m)
            return [200, 200, 100, 0][sev]
        if how == "gen":
            c.uvm_report(sev, id, m, verb, "f.sv", 3)
            return verb
        getattr(c, "uvm_report_" + ["info", "warning", "error", "fatal"][sev])(id, m, verb)
        return verb

    def verbof(s):
        sev = s["sev"]
        if s["how"] == "macro":
            return s["verb"] if sev == 0 else 0
        if s["how"] == "ctx" and sev == 2 and not (s["how"] == "glob"):
            return 0
        if s["how"] in ("default", "default2"):
            return [200, 200, 100, 0][sev]
        return s["verb"]

    def observe(e, f):
        Catcher.seen = []
        outs.clear()
        ABORT.clear()
        died = False
        try:
            f()
        except UVMFinishError:
            died = True
        e["seen"], e["outs"], e["died"] = list(Catcher.seen), list(outs), died
        e["abort"] = list(ABORT)
        ev.append(e)
        return died

    def counts():
        v = root.get_report_verbosity_level(0, "UVM/REPORT/CATCHER")
        root.set_report_verbosity_level(-1)
        text = srv.get_summary_string()
        root.set_report_verbosity_level(v)
        ssev = [int(re.search(r"^%s : (\d+)$" % s, text, re.M).group(1)) for s in SEVS]
        sids = [{"id": a, "n": int(b)} for a, b in re.findall(r"^\[(.*)\] (\d+)$", text, re.M)]
        idset = []
        srv.get_id_set(idset)
        R = UVMReportCatcher
        ev.append({"op": "cnt", "sev": [srv.get_severity_count(s) for s in range(4)],
                   "ids": [{"id": i, "n": srv.get_id_count(i)} for i in ("A", "B", "C", "zz", "EXTRA")],
                   "quit": srv.get_quit_count(), "max": srv.get_max_quit_count(), "reached": srv.is_quit_count_reached(),
                   "caught": [R.m_caught_warning, R.m_caught_error, R.m_caught_fatal],
                   "dem": [R.m_demoted_warning, R.m_demoted_error, R.m_demoted_fatal],
                   "ssev": ssev, "sids": sids, "idset": idset})

    for s in scn["steps"]:
        UVMCallbacksBase.m_tracing = False
        d = s["do"]
        c = comps[s["c"] - 1] if s.get("c") else None
        if d == "set":
            w, v, h = s["what"], s["v"], "_hier" if s["hier"] and "ovr" not in s["what"] else ""
            if "file" in w:
                v = files[v]
            pre = "set_report_"
            name = {"verb": "verbosity_level", "idverb": "id_verbosity", "sevidverb": "severity_id_verbosity",
                    "sevact": "severity_action", "idact": "id_action", "sevidact": "severity_id_action",
                    "file": "default_file", "sevfile": "severity_file", "idfile": "id_file", "sevidfile": "severity_id_file",
                    "sevovr": "severity_override", "sevidovr": "severity_id_override"}[w]
            args = {"verb": (v,), "file": (v,)}.get(w)
            if args is None:
                if w == "sevidovr":
                    args = (s["sev"], s["id"], v)
                else:
                    args = ((s["sev"],) if w.startswith("sev") else ()) + ((s["id"],) if "id" in w else ()) + (v,)
            getattr(c, pre + name + h)(*args)
            ev.append({"op": "set", "c": s["c"], "hier": bool(h), "what": w, "sev": s["sev"], "id": s["id"], "v": s["v"]})
        elif d == "reset":
            c.reset_report_handler()
            ev.append({"op": "reset", "c": s["c"]})
        elif d == "add":
            k = cats[s["k"] - 1]
            # a duplicate is refused with a warning: not part of this specification
            if (s["c"], s["k"]) in quotes or (0, s["k"]) in quotes or (s["c"] == 0 and any(x[1] == s["k"] for x in quotes)):
                continue
            quotes.append((s["c"], s["k"]))
            UVMReportCb.add(c, k, UVM_PREPEND if s["pre"] else UVM_APPEND)
            ev.append({"op": "add", "c": s["c"], "k": s["k"], "pre": s["pre"]})
        elif d == "mode":
            cats[s["k"] - 1].callback_mode(1 if s["on"] else 0)
            ev.append({"op": "mode", "k": s["k"], "on": s["on"]})
        elif d == "max":
            if observe({"op": "max", "n": s["n"], "ovr": s["ovr"]}, lambda: srv.set_max_quit_count(s["n"], s["ovr"])):
                return
        elif d == "setq":
            srv.set_quit_count(s["n"])
            ev.append({"op": "setq", "n": s["n"]})
        elif d == "sets":
            srv.set_severity_count(s["sev"], s["n"])
            ev.append({"op": "sets", "sev": s["sev"], "n": s["n"]})
        elif d == "setid":
            srv.set_id_count(s["id"], s["n"])
            ev.append({"op": "setid", "id": s["id"], "n": s["n"]})
        elif d == "clear":
            srv.reset_severity_counts()
            srv.reset_quit_count()
            ev.append({"op": "clear"})
        elif d == "msg":
            e = {"op": "msg", "c": s["c"], "sev": s["sev"], "id": s["id"], "msg": s["msg"], "verb": verbof(s)}
            if observe(e, lambda: msg(s)):
                return
        elif d == "tab":
            f = c.get_report_file_handle(s["sev"], s["id"])
            ev.append({"op": "tab", "c": s["c"], "sev": s["sev"], "id": s["id"],
                       "verb": c.get_report_verbosity_level(s["sev"], s["id"]),
                       "act": c.get_report_action(s["sev"], s["id"]), "file": f.n if isinstance(f, F) else f})
        elif d == "cnt":
            counts()
    counts()


RULE = {"kind": "catcher", "sev": -1, "id": "", "nsev": -1, "nid": "", "nmsg": "", "nverb": -1, "nact": -1, "extra": -1,
        "everb": 0, "issue": False, "ret": THROW}


def rule(rng, rich=True):
    r = dict(RULE)
    if rng.random() < .1:
        return dict(r, kind="other")
    if rng.random() < .4:
        r["sev"] = rng.randrange(4)
    if rng.random() < .3:
        r["id"] = rng.choice("AB")
    if rng.random() < .4:
        r["nsev"] = rng.randrange(4)
    if rng.random() < .2:
        r["nid"] = rng.choice("ABC")
    if rng.random() < .3:
        r["nmsg"] = rng.choice(["x1", "x2"])
    if rng.random() < .15:
        r["nverb"] = rng.choice([0, 200, 500])
    if rng.random() < .25:
        r["nact"] = rng.choice([0, 1, 2, 3, 4, 5, 7])
    if rng.random() < .15:
        r["extra"], r["everb"] = rng.randrange(4), 0
        if r["extra"] == 0:
            r["everb"] = rng.choice([0, 200, 300])
        if r["extra"] == 3 and rng.random() < .8:
            r["extra"] = 2
    r["issue"] = rng.random() < .1
    r["ret"] = rng.choices([THROW, CAUGHT, 0], [10, 4, .5])[0]
    return r


WHATS = ["verb", "idverb", "sevidverb", "sevact", "idact", "sevidact", "file", "sevfile", "idfile", "sevidfile", "sevovr", "sevidovr"]


def scenarios(focus):
    def f(rng, tier):
        for _ in range(900 if tier == "quick" else 15000):
            n = rng.randint(2, 5)
            par = [0] + [rng.randint(1, i) for i in range(1, n)]
            nk = rng.randint(1, 4) if focus != "set" or rng.random() < .2 else 0
            rules = [rule(rng) for _ in range(nk)]
            steps = []
            w = {"set": [8, .3, .3, 0, .3, .2, .2, .2, .2, .1, 6, 3, .5], "cnt": [3, .2, .5, .2, 2, 1, 1, 1, 1, .3, 10, .5, 2],
                 "cat": [3, .2, 4, 2, .3, .2, .1, .1, .1, .1, 10, .3, .6]}[focus]
            lowact = rng.random() < .5
            for _ in range(rng.randint(5, 45)):
                d = rng.choices(["set", "reset", "add", "mode", "max", "setq", "sets", "setid", "nop", "clear", "msg", "tab", "cnt"], w)[0]
                s = {"do": d, "c": rng.randint(1, n), "sev": rng.randrange(4), "id": rng.choice("AABBC"), "k": rng.randint(1, max(nk, 1))}
                if d in ("add", "mode") and not nk or d == "nop":
                    continue
                if d == "set":
                    s["what"] = rng.choice(WHATS)
                    s["hier"] = rng.random() < .3
                    wh = s["what"]
                    s["v"] = rng.choice([0, 100, 200, 300, 150]) if "verb" in wh else rng.randrange(4) if "file" in wh or "ovr" in wh \
                        else rng.choice([0, 1, 2, 3, 4, 5, 6, 7] + ([8, 9, 13] if rng.random() < .1 else []))
                elif d == "add":
                    s["c"] = rng.choice([0, s["c"], s["c"]])
                    s["pre"] = rng.random() < .3
                elif d == "mode":
                    s["on"] = rng.random() < .5
                elif d == "max":
                    s["n"], s["ovr"] = rng.choice([0, 1, 2, 3, 5, 8, -1]), rng.random() < .8
                elif d in ("setq", "sets", "setid"):
                    s["n"] = rng.choice([0, 0, 1, 2, 4, -2])
                elif d == "msg":
                    if s["sev"] == 3 and rng.random() < .8:
                        s["sev"] = rng.randrange(3)
                    s["msg"] = rng.choice(["m1", "m2"])
                    s["verb"] = rng.choice([0, 100, 200, 200, 300, 400])
                    s["how"] = rng.choice(["", "macro", "glob", "ctx", "default", "default2", "gen"])
                steps.append(s)
            if lowact:  # fatal messages do not end the run
                steps = [{"do": "set", "c": 1, "hier": True, "what": "sevact", "sev": 3, "id": "", "v": 5}] + steps
            if focus == "cat" and rng.random() < .25:  # severities with actions of their own, changed several times over
                for r in rules:
                    r.update(sev=-1, id="", nsev=rng.randrange(3) if rng.random() < .8 else -1, nact=-1, ret=THROW)
                acts = rng.sample([1, 2, 3, 4, 6, 7], 3)
                steps = [{"do": "set", "c": 1, "hier": True, "what": "sevact", "sev": q, "id": "", "v": acts[q]} for q in range(3)] \
                    + [{"do": "add", "c": 0, "k": k + 1, "pre": False, "sev": 0, "id": "A"} for k in range(nk)] + steps
            yield {"par": par, "rules": rules, "steps": steps}
    return f


def part(focus, owns, mc, gen):
    return Part("Report", execute, scenarios(focus), mc=mc, gen=gen, gen_cap=(800, 8000), owns=owns)


def gen(h):
    steps = []
    for s in h["h"]:
        steps.append(s)
    return {"par": h["par"], "rules": h["rules"], "steps": steps}


CHECKS = {
    "C21": Check(part("set", ["issue", "table", "crash", "hang"], ["MC_Report"], gen)),
    "C22": Check(part("cnt", ["count", "quit", "summary", "crash", "hang"], ["MC_ReportCount"], gen)),
    "C23": Check(part("cat", ["catcher", "issue", "crash", "hang"], ["MC_Catcher"], gen)),
}
