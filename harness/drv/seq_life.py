"""Life of sequences (spec SeqLife): hooks released one by one on command."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger, Event
from cocotb.utils import get_sim_time
from registry import Part, Check
import uvm
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_ERROR, UVM_WARNING, UVM_INFO, UVM_NO_ACTION
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.comps.uvm_driver import UVMDriver


def now():
    return int(get_sim_time("ns"))


class Phase:
    """Stand-in for the starting phase: only records."""

    def __init__(self, run, log):
        self.run, self.log = run, log

    def raise_objection(self, obj, description="", count=1):
        self.log({"op": "obj", "s": self.run, "k": "raise"})

    def drop_objection(self, obj, description="", count=1):
        self.log({"op": "obj", "s": self.run, "k": "drop"})

    def get_name(self):
        return "ph"


class Seq(UVMSequence):
    def __init__(self, name, no, log):
        super().__init__(name)
        self.no, self.log = no, log
        self.par = None
        self.run_id = 0
        self.tok, self.cmds, self.ev = 0, [], Event()
        self.in_body = False
        self.root = 0
        self.active = False
        self.free_at = 0
        self.inh = ""

    async def hook(self, h):
        self.inh = h
        self.log({"op": "in", "s": self.run_id, "h": h, "st": self.get_sequence_state()})
        while not self.tok:
            self.ev.clear()
            await self.ev.wait()
        self.tok -= 1
        self.inh = ""
        self.log({"op": "out", "s": self.run_id, "h": h})

    async def pre_start(self):
        await self.hook("pre_start")

    async def pre_body(self):
        await self.hook("pre_body")

    async def post_body(self):
        await self.hook("post_body")

    async def post_start(self):
        await self.hook("post_start")

    async def body(self):
        self.in_body = True
        self.inh = "body"
        self.log({"op": "in", "s": self.run_id, "h": "body", "st": self.get_sequence_state()})
        while True:
            while not self.cmds and not self.tok:
                self.ev.clear()
                await self.ev.wait()
            if self.cmds:
                c = self.cmds.pop(0)
                if c == "item":
                    it = UVMSequenceItem("it")
                    self.log({"op": "ireq", "s": self.run_id})
                    await self.start_item(it)
                    await self.finish_item(it)
                    self.log({"op": "ifin", "s": self.run_id})
                else:
                    await c()
                continue
            self.tok -= 1
            break
        self.in_body = False
        self.inh = ""
        self.log({"op": "out", "s": self.run_id, "h": "body"})

    def pdo(self, h, item, arg=None):
        s = 0
        if not item and arg is not None:
            s = getattr(arg, "run_id", -1)
        self.log({"op": "pdo", "p": self.run_id, "h": h, "item": item, "s": s})

    def pre_do(self, is_item):
        self.pdo("pre_do", bool(is_item))

    def mid_do(self, this_item):
        self.pdo("mid_do", not isinstance(this_item, Seq), this_item)

    def post_do(self, this_item):
        self.pdo("post_do", not isinstance(this_item, Seq), this_item)

    def do_kill(self):
        self.log({"op": "killhook", "s": self.run_id, "root": Seq.killing})
        self.active = False
        self.free_at = now() + 1        # the killed start() gets time to end


def execute(scn, ev):
    async def main():
        def log(e):
            e["t"] = now()
            ev.append(e)
        sqr = UVMSequencer("sqr", None)
        drv = UVMDriver("drv", None)
        for c in (UVMCoreService.get().get_root(), sqr, drv):
            for sev in (UVM_INFO, UVM_WARNING, UVM_ERROR):
                c.set_report_severity_action(sev, UVM_NO_ACTION)
        drv.seq_item_port.connect(sqr.seq_item_export)
        for p in (sqr.seq_item_export, drv.seq_item_port):
            p.resolve_bindings()

        async def driver():
            while True:
                t = []
                await drv.seq_item_port.get_next_item(t)
                await Timer(1, "NS")
                drv.seq_item_port.item_done()
        cocotb.start_soon(driver())
        seqs = [Seq("q%d" % i, i + 1, log) for i in range(4)]
        runs = []
        nw = [0]

        async def start(q, s, par):
            rid = len(runs) + 1
            runs.append(q)
            q.run_id = rid
            q.active, q.tok, q.cmds, q.in_body, q.inh = True, 0, [], False, ""
            q.par = par
            log({"op": "start", "s": rid, "o": q.no, "par": par.run_id if par else 0, "pre": s["pre"],
                 "prio": s["prio"], "apo": s["apo"], "sp": s["sp"]})
            if par is None:
                q.set_parent_sequence(None)
                q.set_depth(1)
            q.set_automatic_phase_objection(1 if s["apo"] else 0)
            if s["sp"]:
                q.set_starting_phase(Phase(rid, log))
            own = s["own"] or par is None
            q.want_sqr = sqr
            a = [sqr if own else None, par]
            if s["prio"] >= 0 or not s["pre"]:
                a.append(s["prio"])
            if not s["pre"]:
                a.append(0)
            await q.start(*a)
            log({"op": "ret", "s": rid, "st": q.get_sequence_state()})
            if q.run_id == rid:
                q.active = False

        async def waiter(w, q, mask):
            m = 0
            for b in mask:
                m |= b
            log({"op": "wcall", "w": w, "o": q.no, "mask": mask})
            await q.wait_for_sequence_state(m)
            log({"op": "wret", "w": w})

        def obs():
            for q in seqs:
                if q.run_id:
                    log({"op": "obs", "s": q.run_id, "st": q.get_sequence_state(), "prio": q.get_priority(),
                         "depth": q.get_depth(), "sqr": q.get_sequencer() is sqr})

        def under(k, q):
            while k is not None:
                if k is q:
                    return True
                k = k.par
            return False

        def kids_alive(q):
            return any(k.active and k.par is q for k in seqs)

        for s in scn["steps"]:
            d = s["do"]
            if d == "tick":
                await Timer(s.get("n", 1), "NS")
            elif d == "delta":
                for _ in range(s.get("n", 1)):
                    await NullTrigger()
            else:
                q = seqs[s["o"] - 1]
                if d == "start":
                    par = seqs[s["par"] - 1] if s.get("par") else None
                    if q.active or len(runs) > 9 or now() < q.free_at:
                        continue
                    if par is not None and (par is q or not par.in_body or not par.active):
                        par = None
                    p, ok = par, True
                    while p is not None:
                        ok = ok and p is not q
                        p = p.par
                    if not ok:
                        continue
                    s = dict({"pre": True, "prio": -1, "apo": False, "sp": False, "own": True, "inline": False}, **s)
                    if q.run_id and not any(e["op"] == "ret" and e["s"] == q.run_id for e in ev):
                        # killed together with its parent: its start() never returned, and the
                        # phase settings of that run stay locked (as in UVM)
                        if any(e["op"] == "start" and e["s"] == q.run_id and e["apo"] for e in ev):
                            continue
                        s["apo"] = False
                    if par is not None and s["inline"]:
                        q.active = True
                        par.cmds.append(lambda q=q, s=s, par=par: start(q, s, par))
                        par.ev.set()
                    else:
                        await cocotb.start(start(q, s, par))
                elif d == "go":
                    if q.active and q.run_id and q.tok == 0:
                        if q.in_body and kids_alive(q):
                            continue
                        q.tok += 1
                        q.ev.set()
                elif d == "item":
                    if q.active and q.in_body:
                        q.cmds.append("item")
                        q.ev.set()
                elif d == "kill":
                    if q.active and q.run_id and runs[q.run_id - 1] is q and any(
                            e["op"] == "start" and e["s"] == q.run_id for e in ev):
                        r = q.run_id
                        if any(e["op"] == "ret" and e["s"] == r for e in ev):
                            continue
                        if not q.inh or any(k.active and k is not q and not k.inh and under(k, q) for k in seqs):
                            continue
                        Seq.killing = r
                        log({"op": "kill", "s": r})
                        q.kill()
                        log({"op": "killed", "s": r})
                        for k in seqs:
                            if k.active and k.par is q and not any(e["op"] == "start" and e["s"] == k.run_id for e in ev):
                                k.active = False
                elif d == "wait":
                    nw[0] += 1
                    await cocotb.start(waiter(nw[0], q, s["mask"]))
            if s.get("obs"):
                obs()
        for _ in range(3):
            await Timer(2, "NS")
            obs()

    ev.append({"op": "cfg"})
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


STATES = [2, 4, 8, 16, 32, 64, 128, 256]


def gen(h):
    k = hash(str(h))
    steps = []
    for i, s in enumerate(h):
        s = dict(s)
        steps.append(s)
        b = (k >> (2 * i)) & 3
        if s["do"] != "tick" and b < 2:
            steps.append({"do": "delta", "n": 3 + 3 * b, "obs": b == 1})
    return {"seed": k & 0xffff, "steps": steps}


def scenarios(rng, tier):
    for _ in range(700 if tier == "quick" else 12000):
        steps = []
        kill = rng.choice([0, 0, .3, .6])
        items = rng.choice([0, 1])
        n = rng.randint(1, 4)
        for _ in range(rng.randint(8, 45)):
            d = rng.choices(["start", "go", "item", "kill", "wait"], [3, 7, items, kill, 1])[0]
            s = {"do": d, "o": rng.randint(1, n), "obs": rng.random() < .3}
            if d == "start":
                s.update(pre=rng.random() < .6, prio=rng.choice([-1, -1, 50, 300]), apo=rng.random() < .4,
                         sp=rng.random() < .7, own=rng.random() < .5, inline=rng.random() < .5)
                if rng.random() < .6:
                    s["par"] = rng.randint(1, n)
            elif d == "wait":
                s["mask"] = rng.sample(STATES, rng.choice([1, 1, 2, 3]))
            steps.append(s)
            r = rng.random()
            if r < .35:
                steps.append({"do": "tick", "n": rng.randint(1, 3), "obs": rng.random() < .3})
            elif r < .7:
                steps.append({"do": "delta", "n": rng.randint(1, 6), "obs": rng.random() < .3})
        yield {"seed": rng.randrange(1 << 30), "steps": steps}


CHECKS = {"C09": Check(Part("SeqLife", execute, scenarios, mc=["MC_SeqLife"], gen=gen, gen_cap=(1500, 30000)))}
