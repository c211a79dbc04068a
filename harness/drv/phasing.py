"""Component trees run through all phases by run_test() (spec Phasing)."""
import fakesim
import cocotb
from cocotb.triggers import Timer
from registry import Part, Check
from drv import utest
from drv.utest import now
from cocotb.utils import get_sim_steps
import uvm
from uvm.base.uvm_component import UVMComponent
from uvm.comps.uvm_test import UVMTest
from uvm.base.uvm_phase import UVMPhaseCb
from uvm.base.uvm_callback import UVMCallbacks
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_object_globals import UVM_GTE, UVM_PHASE_EXECUTING, UVM_PHASE_DONE
from uvm.macros.uvm_object_defines import uvm_component_utils

COMMON = ["build", "connect", "end_of_elaboration", "start_of_simulation", "run", "extract", "check", "report", "final"]
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure",
      "pre_main", "main", "post_main", "pre_shutdown", "shutdown", "post_shutdown"]
TASKS = ["run"] + RT
DOMS = ["d1", "d2"]
W = {}            # the scenario being run: "scn", "ev"


def pid(phase):
    """The name of a phase in the log: dom.name for the run-time phases of a user domain."""
    d, n = phase.get_domain_name(), phase.get_name()
    return d + "." + n if d in DOMS else n


STATES = {1: "DORMANT", 2: "SCHEDULED", 4: "SYNCING", 8: "STARTED", 16: "EXECUTING", 32: "READY_TO_END",
          64: "ENDED", 128: "CLEANUP", 256: "DONE"}


def sname(x):
    return STATES.get(int(x), str(int(x)))


class StateCb(UVMPhaseCb):
    """Watches the states of one phase."""

    def __init__(self, node):
        super().__init__("cb")
        self.node = node

    def phase_state_change(self, phase, change):
        if phase is self.node:
            W["ev"].append({"op": "state", "ph": pid(phase), "prev": sname(change.get_prev_state()),
                            "to": sname(change.get_state()), "t": now()})


def log(op, c, ph, **kw):
    W["ev"].append(dict(op=op, ph=ph, c=c, t=now(), **kw))


class Mix:
    """Logs every phase hook; obeys the scenario's script for this component."""

    def vinit(self, i):
        self.i = i
        self.nm = W["scn"]["comps"][i]["n"]
        W["ev"].append({"op": "new", "c": self.nm, "p": W["scn"]["comps"][W["scn"]["comps"][i]["p"]]["n"] if i else ""})
        self.rte = dict(W["scn"]["comps"][i].get("rte", {}))
        self.mine = {}
        self.kids("init")
        self.domain("init")

    def kids(self, when):
        for j, c in enumerate(W["scn"]["comps"]):
            if j and c["when"] == when:
                if when == "sib":
                    if c["by"] == self.i:
                        Comp(c["n"].split(".")[-1], self.get_parent(), j)
                elif c["p"] == self.i:
                    self.mine[j] = Comp(c["n"].split(".")[-1], self, j)

    def domain(self, when):
        """Moves the component (and maybe the components below it) to a domain."""
        for at, d, hier in W["scn"]["comps"][self.i].get("dom", []):
            if at == when:
                if d == "uvm":
                    dom = UVMDomain.get_uvm_domain()
                else:
                    dom = UVMDomain.get_domains().get(d) or UVMDomain(d)
                W["ev"].append({"op": "dom", "c": self.nm, "d": d, "hier": hier})
                self.set_domain(dom, hier)

    def phase_started(self, phase):
        log("start", self.nm, pid(phase), s=sname(phase.get_state()))

    def phase_ended(self, phase):
        log("ended", self.nm, pid(phase), s=sname(phase.get_state()))

    def phase_ready_to_end(self, phase):
        p = phase.get_name()
        if p not in TASKS:
            return
        q = pid(phase)
        log("rte", self.nm, q, s=sname(phase.get_state()))
        todo = self.rte.get(p)
        if todo:
            d, k = todo
            self.rte[p] = [d, k - 1] if k > 1 else None
            phase.raise_objection(self)
            log("raise", self.nm, q, n=1)

            async def later():
                await Timer(d, "ns")
                log("drop", self.nm, q, n=1)
                phase.drop_objection(self)
            cocotb.start_soon(later())

    def func(self, phase):
        p = phase.get_name()
        log("in", self.nm, p, s=sname(phase.get_state()), ex=p == "build" and bool(W["scn"]["comps"][self.i].get("ex")))
        do = W["scn"]["comps"][self.i].get("fn", {}).get(p)
        if do == "find":
            out = []
            utest.root().find_all("*", out)
        elif do == "walk":
            par = self.get_parent()
            c = par.get_first_child()
            while c is not None:
                c = par.get_next_child()
        elif do == "walkme" and self.has_first_child():
            self.get_first_child()
        if p == "build":
            self.domain("pre")
            self.kids("build")
            for j in self.mine:
                if W["scn"]["comps"][j].get("ex"):         # built by its parent
                    self.mine[j].build_phase(phase)
            self.kids("sib")
            self.domain("post")
        log("out", self.nm, p)

    async def task(self, phase):
        p = phase.get_name()
        q = pid(phase)
        log("in", self.nm, q, s=sname(phase.get_state()))
        script = W["scn"]["comps"][self.i].get("task", {}).get(p, [])
        for s in script:
            if s[0] == "wait":
                if s[1]:
                    await Timer(s[1], "ns")
                log("tick", self.nm, q)
            elif s[0] == "raise":
                log("raise", self.nm, q, n=s[1])
                phase.raise_objection(self, "", s[1])
            elif s[0] == "drop":
                log("drop", self.nm, q, n=s[1])
                phase.drop_objection(self, "", s[1])
            elif s[0] == "drain":
                phase.get_objection().set_drain_time(self, get_sim_steps(s[1], "ns"))
                log("drain", self.nm, q, d=s[1])
            elif s[0] == "waitfor":
                ph = self.get_domain().find_by_name(s[1])
                frm = now()
                await ph.wait_for_state(UVM_PHASE_EXECUTING if s[2] == "begin" else UVM_PHASE_DONE, UVM_GTE)
                W["ev"].append({"op": "waited", "ph": pid(ph), "at": s[2], "from": frm, "t": now()})
            elif s[0] == "spin":
                while True:
                    await Timer(s[1], "ns")
                    log("tick", self.nm, q)
        log("out", self.nm, q)


for _p in COMMON + RT:
    if _p in TASKS:
        async def _f(self, phase):
            await self.task(phase)
    else:
        def _f(self, phase, _p=_p):
            if _p == "build":
                UVMComponent.build_phase(self, phase)
            self.func(phase)
    setattr(Mix, _p + "_phase", _f)


class Comp(Mix, UVMComponent):
    def __init__(self, name, parent, i):
        UVMComponent.__init__(self, name, parent)
        self.vinit(i)


class PTest(Mix, UVMTest):
    def __init__(self, name="PTest", parent=None):
        UVMTest.__init__(self, name, parent)
        self.vinit(0)


uvm_component_utils(PTest)


def execute(scn, ev):
    W["scn"], W["ev"] = scn, ev
    ev.append({"op": "cfg", "common": COMMON, "doms": ["uvm"] + DOMS,
               "rts": [RT] + [[d + "." + p for p in RT] for d in DOMS]})

    async def main():
        utest.quiet()
        for p in scn.get("watch", []):
            d = UVMDomain.get_common_domain() if p in COMMON else UVMDomain.get_uvm_domain()
            node = d.find_by_name(p)
            ev.append({"op": "watch", "ph": p, "s": sname(node.get_state())})
            UVMCallbacks.add(node, StateCb(node))
        await uvm.run_test("PTest")
        ev.append({"op": "end", "t": now()})
    st, v, _ = fakesim.run(main, seed=scn.get("seed", 0))
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def name(i, comps):
    return "uvm_test_top" if i == 0 else comps[comps[i]["p"]]["n"] + ".c%d" % i


def tree(rng, n):
    comps = [{"n": "uvm_test_top", "p": 0, "when": "build"}]
    for i in range(1, n):
        c = {"p": rng.choice([0, max(0, i - 1), rng.randrange(i)]), "when": rng.choice(["build", "build", "init"])}
        if i > 1 and rng.random() < .2:                # created by the build of an older sibling
            sib = [j for j in range(1, i) if comps[j]["p"] == c["p"] and comps[j]["when"] != "init"]
            if sib:
                c["when"], c["by"] = "sib", rng.choice(sib)
        if c["when"] != "sib" and rng.random() < .15:
            c["ex"] = True
        comps.append(c)
        c["n"] = name(i, comps)
    return comps


def script(rng, leaf):
    s = []
    if rng.random() < .25 and leaf:
        s.append(["drain", rng.choice([1, 3, 7])])
    if rng.random() < .3:                          # objects late: only safe while somebody else objects
        s.append(["wait", rng.choice([0, 1, 2, 5])])
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = rng.choice([1, 1, 2])
        s.append(["raise", n])
        s.append(["wait", rng.choice([0, 1, 2, 5, 5, 10])])
        if n == 2 and rng.random() < .5:
            s += [["drop", 1], ["wait", rng.choice([0, 3])], ["drop", 1]]
        else:
            s.append(["drop", n])
        if rng.random() < .3:
            s.append(["wait", rng.choice([0, 1, 4])])
    if rng.random() < .3:
        s.append(["spin", rng.choice([1, 2, 3])])
    return s


def domains(rng, comps):
    """At least one component moves to a domain of its own."""
    for i in rng.sample(range(len(comps)), min(len(comps), rng.choice([1, 1, 2, 3]))):
        comps[i]["dom"] = [[rng.choice(["init", "pre", "post", "pre"]), rng.choice(["d1", "d1", "d2", "uvm"]), rng.random() < .7]
                           for _ in range(rng.choice([1, 1, 1, 2]))]
        comps[i]["dom"].sort(key=lambda x: ["init", "pre", "post"].index(x[0]))


def scenarios(rng, tier, doms=False, watch=False):
    for k in range((80 if doms or watch else 130) if tier == "quick" else 4000):
        n = rng.choice([1, 2, 3, 4, 6, 9, 25 if k % 10 == 0 else 5])
        comps = tree(rng, n)
        for i, c in enumerate(comps):
            leaf = not any(x["p"] == i and j for j, x in enumerate(comps))
            c["task"] = {}
            phs = [p for p in TASKS if rng.random() < rng.choice([.1, .4])] if n < 20 else rng.sample(TASKS, 1)
            for p in phs:
                c["task"][p] = script(rng, leaf)
            if rng.random() < .2:
                c["rte"] = {p: [rng.choice([0, 1, 3]), rng.choice([1, 1, 2, 3])] for p in rng.sample(TASKS, 1)}
                for p in c["rte"]:
                    c["task"].pop(p, None)
            if rng.random() < .4:
                c["fn"] = {p: rng.choice(["find", "walk", "walkme"]) for p in rng.sample(COMMON, 2)}
            if rng.random() < .3:
                at = rng.choice(["begin", "done"])
                own = rng.choice(TASKS)
                oth = rng.choice(RT)
                if own == "run" or oth in RT[:RT.index(own) + (at == "begin")]:
                    s = c["task"].setdefault(own, [])
                    if not any(x[0] == "spin" for x in s):
                        if rng.random() < .5:
                            s.append(["wait", rng.choice([1, 7])])
                        s.append(["waitfor", oth, at])
        if doms:
            domains(rng, comps)
        scn = {"comps": comps, "seed": rng.randrange(10 ** 6)}
        if watch:
            scn["watch"] = rng.sample(COMMON + RT, rng.choice([3, 21]))
        yield scn


def gen(h, two=False):
    """A behaviour of MC_Phasing: components A (parent) and B (child, drain 1)."""
    comps = [{"n": "uvm_test_top", "p": 0, "when": "build", "task": {}},
             {"n": "uvm_test_top.c1", "p": 0, "when": "build", "task": {}}]
    start = {"run": 0, "reset": 0}
    t = {}
    first = 0
    for x in h:          # main begins when reset ends: rebase
        if x["ph"] == "reset" and x["do"] == "drop":
            first = max(first, x["t"] + (1 if x["c"] == "B" else 0))
    start["main"] = first
    start2 = dict(start, main=max([x["t"] + 1 for x in h if x.get("k") == "d1.reset" and x["do"] == "drop"], default=0))
    if two:
        start["main"] = max([x["t"] for x in h if x["k"] == "reset" and x["do"] == "drop"], default=0)
    for x in h:
        i = 0 if x["c"] == "A" else 1
        p = x["ph"]
        s = comps[i]["task"].setdefault(p, [["drain", 1]] if i else [])
        d = x["t"] - t.get((i, p), (start2 if two and i else start)[p])
        t[i, p] = x["t"]
        if d:
            s.append(["wait", 4 * d])
        s.append([x["do"], 1])
    for c in comps:
        for p in c["task"]:
            for s in c["task"][p]:
                if s[0] == "drain":
                    s[1] = 4
    return {"comps": comps, "seed": len(h)}


def part(own):
    return Part("Phasing", execute, scenarios, mc=["MC_Phasing"], gen=gen, gen_cap=(100, 4000), owns=own)


def doms(rng, tier):
    return scenarios(rng, tier, True)


def watched(rng, tier):
    return scenarios(rng, tier, rng.random() < .3, True)


def gen_doms(h):
    """A behaviour of MC_Domains: A in the default domain, B below it in d1."""
    scn = gen([dict(x, ph=x["ph"].rpartition(".")[2], k=x["ph"]) for x in h], True)
    scn["comps"][1]["dom"] = [["init", "d1", True]]
    return scn


CHECKS = {"C42": Check(Part("Phasing", execute, doms, mc=["MC_Domains"], gen=gen_doms, gen_cap=(60, 4000))),
          "C43": Check(Part("Phasing", execute, watched, owns=["state", "wait_for_state"])),
          "C03": Check(part(["order", "once", "tree", "time"])),
          "C04": Check(part(["objection", "killed", "order", "time", "wait_for_state", "once.missed", "once.not-run"]))}
