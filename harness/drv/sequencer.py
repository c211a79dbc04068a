"""Sequencer, sequences and driver (spec Sequencer), step by step on command."""
import fakesim
import cocotb
from cocotb.triggers import Timer, NullTrigger, ReadWrite, Event
from cocotb.utils import get_sim_time
from registry import Part, Check
from vlib import S
import uvm
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import (UVM_ERROR, UVM_WARNING, UVM_INFO, UVM_NO_ACTION, UVM_COUNT,
                                         UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM)
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.comps.uvm_driver import UVMDriver


def now():
    return int(get_sim_time("ns"))


class Item(UVMSequenceItem):
    def __init__(self, name="item"):
        super().__init__(name)
        self.x = None
        self.own = 0


class Seq(UVMSequence):
    """A sequence that executes the commands it is given."""

    def __init__(self, name):
        super().__init__(name)
        self.run_id = 0
        self.relv = True
        self.relev = Event()
        self.cmds, self.cmdev = [], Event()
        self.log = None
        self.custom = False
        self.kids = 0
        self.kidev = Event()
        self.hand = []
        self.getters = []
        self.item = None
        self.ready = False

    def is_relevant(self):
        if not self.custom:
            return super().is_relevant()
        return 1 if self.relv else 0

    async def wait_for_relevant(self):
        if not self.custom:
            await super().wait_for_relevant()
            return
        while not self.relv:
            self.relev.clear()
            await self.relev.wait()

    def response_handler(self, r):
        self.hand.append(S(r.x))

    def cmd(self, c):
        self.cmds.append(c)
        self.cmdev.set()

    async def body(self):
        self.log({"op": "run", "s": self.run_id, "parent": self.par_id})
        self.ready = True
        while True:
            while not self.cmds:
                self.cmdev.clear()
                await self.cmdev.wait()
            c = self.cmds.pop(0)
            d = c["do"]
            if d == "req" and self.item is None:
                it = self.item = Item("i%d" % c["n"])
                it.x, it.own = "v%d" % c["n"], self.run_id
                if c["tid"]:
                    it.set_transaction_id(c["tid"])
                self.log({"op": "req", "s": self.run_id})
                await self.start_item(it, c.get("prio", -1))
                self.log({"op": "grant", "s": self.run_id})
            elif d == "send" and self.item is not None:
                it, self.item = self.item, None
                self.log({"op": "send", "s": self.run_id, "item": it.x, "tid": it.get_transaction_id()})
                await self.finish_item(it)
                self.log({"op": "fin", "s": self.run_id})
            elif d == "exit":
                while self.kids:
                    self.kidev.clear()
                    await self.kidev.wait()
                if self.item is not None:
                    continue
                for g in self.getters:
                    g.kill()
                self.ready = False
                self.log({"op": "exit", "s": self.run_id})
                return


def execute(scn, ev):
    async def main():
        cs = UVMCoreService.get()
        srv = cs.get_report_server()
        top = cs.get_root()
        sqr = UVMSequencer("sqr", None)
        drv = UVMDriver("drv", None)
        for c in (top, sqr, drv):
            c.set_report_severity_action(UVM_INFO, UVM_NO_ACTION)
            c.set_report_severity_action(UVM_WARNING, UVM_NO_ACTION)
            c.set_report_severity_action(UVM_ERROR, UVM_COUNT)
        srv.set_max_quit_count(0)
        sqr.build_phase(None)
        drv.seq_item_port.connect(sqr.seq_item_export)
        drv.rsp_port.connect(sqr.rsp_export)
        sqr.connect_phase(None)
        for p in (sqr.seq_item_export, drv.seq_item_port, sqr.sqr_rsp_analysis_fifo.analysis_export,
                  sqr.rsp_export, drv.rsp_port):
            p.resolve_bindings()
        port = drv.seq_item_port

        def log(e):
            e["t"] = now()
            ev.append(e)

        def errs(seq=None):
            if seq is not None:
                return srv.get_id_count(seq.get_full_name())
            return srv.get_id_count("sqr") + srv.get_id_count("TRY_NEXT_BLOCKED")

        runs = []           # live Seq by run number
        seqs = {}           # name -> Seq object
        nitem = [0]
        ng = [0]
        nv = [0]
        D = {"busy": False, "has": None, "mode": "", "old": []}

        async def start(seq, parent):
            await seq.start(sqr, parent)
            log({"op": "exited", "s": seq.run_id})
            seq.active = False
            if parent is not None:
                parent.kids -= 1
                parent.kidev.set()

        async def dcall(k):
            D["busy"] = True
            log({"op": "dcall", "k": k})
            e0 = errs()
            t = []
            if k == "next":
                r = await port.get_next_item(t)
            elif k == "try":
                await port.try_next_item(t)
                r = t[0] if t else None
            elif k == "peek":
                r = await port.peek(t)
            else:
                r = await port.get(t)
            if r is None and t:
                r = t[-1]
            own = 0
            if r is not None:
                p = r.get_parent_sequence()
                own = p.run_id if (p is not None and r.get_sequencer() is sqr) else -1
                if r.own != own:
                    own = -1
            log({"op": "dret", "k": k, "item": "none" if r is None else S(r.x), "own": own, "err": errs() - e0})
            if r is not None:
                D["old"].append(r)
            if k == "get":
                D["has"] = None
                D["mode"] = ""
            else:
                if r is not None:
                    D["has"] = r
                if r is not None or (k == "try" and errs() > e0):
                    D["mode"] = k if k in ("next", "try") else (D["mode"] or "peek")
            D["busy"] = False

        async def rget(seq, g, tid):
            rsp = []
            log({"op": "rcall", "s": seq.run_id, "g": g, "tid": tid})
            if tid == -1 and g % 2:
                await seq.get_response(rsp)
            else:
                await seq.get_response(rsp, tid)
            log({"op": "rret", "s": seq.run_id, "g": g, "tid": tid, "v": S(rsp[0].x),
                 "rtid": rsp[0].get_transaction_id()})

        async def iwait(seq, g, tid):
            log({"op": "icall", "s": seq.run_id, "g": g, "tid": tid})
            await sqr.wait_for_item_done(seq, tid)
            log({"op": "iret", "s": seq.run_id, "g": g})

        def obs():
            c = sqr.get_current_item()
            log({"op": "obs", "nreq": sqr.get_num_reqs_sent(), "nrsp": sqr.get_num_rsps_received(),
                 "cur": "none" if c is None else S(c.x)})

        def mkrsp(req):
            nv[0] += 1
            r = Item("r%d" % nv[0])
            r.x = "r%d" % nv[0]
            r.set_id_info(req)
            return r

        for s in scn["steps"]:
            d = s["do"]
            if d == "tick":
                await Timer(s.get("n", 1), "NS")
            elif d == "delta":
                for _ in range(s.get("n", 1)):
                    await NullTrigger()
            elif d == "rw":
                await ReadWrite()
            elif d == "run":
                name = s["name"]
                q = seqs.get(name)
                if q is None:
                    q = seqs[name] = Seq(name)
                    q.active = False
                if q.active or len(runs) >= 8:
                    continue
                par = seqs.get(s.get("parent"))
                if par is q or (par is not None and (not par.active or not par.ready or any(
                        c["do"] == "exit" for c in par.cmds))):
                    par = None
                q.active, q.kids = True, 0
                q.cmds, q.item, q.hand, q.getters = [], None, [], []
                q.custom = s["custom"]
                q.relv = True
                q.set_response_queue_depth(8)
                q.set_response_queue_error_report_disabled(False)
                q.use_response_handler(False)
                runs.append(q)
                q.par_id = par.run_id if par is not None else 0
                rid = len(runs)
                if par is not None:
                    par.kids += 1
                    q.set_parent_sequence(None)
                else:
                    q.set_parent_sequence(None)

                def lg(e, q=q, rid=rid):
                    log(e)
                q.log = lg
                q.run_id = rid
                cocotb.start_soon(start(q, par))
                # the run becomes visible in the order of "run" events
                for _ in range(20):
                    if q.ready:
                        break
                    await NullTrigger()
                if not q.ready:
                    log({"op": "hang"})
                    return
            elif d in ("req", "send", "exit"):
                q = seqs.get(s["name"])
                if q is None or not q.active or not q.ready:
                    continue
                c = {"do": d, "prio": s.get("prio", -1)}
                if d == "req":
                    nitem[0] += 1
                    c["n"] = nitem[0]
                    c["tid"] = 500 + nitem[0] if scn.get("tids") else 0
                q.cmd(c)
            elif d == "rel":
                q = seqs.get(s["name"])
                if q is None or not q.active or not q.ready or not q.custom:
                    continue
                q.relv = s["v"]
                log({"op": "rel", "s": q.run_id, "v": s["v"]})
                if q.relv:
                    q.relev.set()
            elif d == "arb":
                sqr.set_arbitration(UVM_SEQ_ARB_FIFO if s["mode"] == "fifo" else UVM_SEQ_ARB_RANDOM)
                log({"op": "arb", "mode": s["mode"]})
            elif d in ("next", "try", "peek", "get"):
                if D["busy"] or (d == "try" and D["mode"] == "peek"):
                    continue
                if d in ("next", "try") and D["mode"] in ("next", "try") and not s.get("twice"):
                    continue
                await cocotb.start(dcall(d))
            elif d == "done":
                if D["busy"] or D["has"] is None:
                    continue
                req = D["has"]
                D["has"], D["mode"] = None, ""
                q = runs[req.own - 1]
                if s.get("rsp"):
                    r = mkrsp(req)
                    e0 = errs(q)
                    q.hand = []
                    port.item_done(r)
                    log({"op": "done", "v": r.x, "tid": req.get_transaction_id(), "err": errs(q) - e0, "hand": list(q.hand)})
                else:
                    port.item_done()
                    log({"op": "done", "v": "-"})
            elif d == "rsp":
                if not D["old"]:
                    continue
                req = D["old"][s["k"] % len(D["old"])]
                r = mkrsp(req)
                q = runs[req.own - 1]
                e0 = errs(q)
                q.hand = []
                w = s["via"]
                e = {"op": "rsp", "s": req.own, "tid": req.get_transaction_id(), "v": r.x}
                log(e)
                if w == "put":
                    await port.put(r)
                elif w == "put_response":
                    port.put_response(r)
                else:
                    drv.rsp_port.write(r)
                e["err"] = errs(q) - e0
                e["hand"] = list(q.hand)
            elif d == "rget":
                q = seqs.get(s["name"])
                if q is None or not q.active or not q.ready:
                    continue
                tid = -1
                if s.get("tid"):
                    mine = [r for r in D["old"] if r.own == q.run_id]
                    if not mine:
                        continue
                    tid = mine[s["tid"] % len(mine)].get_transaction_id()
                ng[0] += 1
                q.getters.append(await cocotb.start(rget(q, ng[0], tid)))
            elif d == "iwait":
                q = seqs.get(s["name"])
                if q is None or not q.active or not q.ready:
                    continue
                for _ in range(6):         # a call while the last item_done is still being noticed forgets that one
                    await NullTrigger()
                if not q.active or not q.ready:
                    continue
                ng[0] += 1
                q.getters.append(await cocotb.start(iwait(q, ng[0], -1 if s["tid"] is None else 500 + nitem[0] + s["tid"])))
            elif d in ("depth", "errdis", "handler", "clear"):
                q = seqs.get(s["name"])
                if q is None or not q.active or not q.ready:
                    continue
                e = {"op": d, "s": q.run_id}
                if d == "depth":
                    e["n"] = s["n"]
                    q.set_response_queue_depth(s["n"])
                elif d == "errdis":
                    e["v"] = s["v"]
                    q.set_response_queue_error_report_disabled(s["v"])
                elif d == "handler":
                    e["v"] = s["v"]
                    q.use_response_handler(s["v"])
                else:
                    q.clear_response_queue()
                log(e)
            if s.get("obs"):
                obs()
        for _ in range(3):
            await Timer(1, "NS")
            obs()

    ev.append({"op": "cfg"})
    st, v, _ = fakesim.run(main, seed=scn["seed"])
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})


def gen(h):
    k = hash(str(h))
    steps = []
    for i, s in enumerate(h):
        s = dict(s)
        if "s" in s:
            s["name"] = "q%d" % s.pop("s")
        if s["do"] == "run":
            s["custom"] = True
        steps.append(s)
        if s["do"] != "tick":
            b = (k >> (2 * i)) & 3
            if b == 1:
                steps.append({"do": "delta", "n": 3})
            elif b == 2:
                steps.append({"do": "rw", "obs": True})
    return {"seed": k & 0xffff, "steps": steps}


def scenarios(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        n = rng.randint(1, 4)
        names = ["q%d" % i for i in range(n)]
        steps = []
        custom = rng.random() < .5
        nest = rng.random() < .4
        rsps = rng.random() < .6
        tids = rng.random() < .5
        peeky = rng.choice([0, 0, 1])
        trys = rng.choice([0, 0, .5, 1])
        iwt = rng.random() < .4
        lazy = rng.random() < .3       # time between start_item and finish_item
        if rng.random() < .3:
            steps.append({"do": "arb", "mode": "random"})

        def sync():
            r = rng.random()
            if r < .3:
                steps.append({"do": "tick", "n": rng.randint(1, 3), "obs": rng.random() < .3})
            elif r < .55:
                steps.append({"do": "delta", "n": rng.randint(1, 6), "obs": rng.random() < .3})
            elif r < .75:
                steps.append({"do": "rw"})

        def run(x):
            s = {"do": "run", "name": x, "custom": custom and rng.random() < .7}
            if nest and rng.random() < .6:
                s["parent"] = rng.choice(names)
            steps.append(s)
            if rsps and rng.random() < .5:
                steps.append({"do": "depth", "name": x, "n": rng.choice([-1, 0, 1, 2, 8])})
            if rsps and rng.random() < .2:
                steps.append({"do": "handler", "name": x, "v": True})
            if rsps and rng.random() < .2:
                steps.append({"do": "errdis", "name": x, "v": True})
        for x in names:
            if rng.random() < .8:
                run(x)
        for _ in range(rng.randint(10, 50)):
            d = rng.choices(["req", "send", "drv", "done", "rel", "rsp", "rget", "run", "exit", "clear", "arb", "iwait"],
                            [5, 4, 5, 4, 2 * custom, 2.5 * rsps, 2 * rsps, .5, .5, .15 * rsps, .15, 2.5 * iwt])[0]
            x = rng.choice(names)
            if d == "req":
                steps.append({"do": "req", "name": x, "prio": rng.choice([-1, -1, 100, 200])})
                if not lazy or rng.random() < .5:
                    steps.append({"do": "send", "name": x})
            elif d == "drv":
                k = rng.choices(["next", "get", "try", "peek"], [3, 1.5 + peeky, trys * 3, peeky * 3])[0]
                s = {"do": k}
                if rng.random() < .05:
                    s["twice"] = True
                steps.append(s)
            elif d == "done":
                steps.append({"do": "done", "rsp": rsps and rng.random() < .5})
            elif d == "rel":
                steps.append({"do": "rel", "name": x, "v": rng.random() < .5})
            elif d == "rsp":
                for _ in range(rng.choice([1, 1, 1, 3])):
                    steps.append({"do": "rsp", "k": rng.choice([-1, -1, -2, -3, 0, 1]), "via": rng.choice(["put", "put_response", "port"])})
            elif d == "rget":
                s = {"do": "rget", "name": x}
                if tids and rng.random() < .6:
                    s["tid"] = rng.randint(1, 5)
                steps.append(s)
            elif d == "iwait":
                steps.append({"do": d, "name": x, "tid": rng.choice([None, 0, 0, 0, -1, 1, 1])})
            elif d == "run":
                run(x)
            elif d == "arb":
                steps.append({"do": "arb", "mode": rng.choice(["fifo", "random"])})
            else:
                steps.append({"do": d, "name": x})
            sync()
        yield {"seed": rng.randrange(1 << 30), "steps": steps, "tids": iwt}


def part(own):
    return Part("Sequencer", execute, scenarios, mc=["MC_Sequencer"], gen=gen, gen_cap=(1500, 30000), owns=own)


CHECKS = {
    "C06": Check(part(["arb.", "crash", "hang", "obs.", "driver."])),
    "C07": Check(part(["handshake.", "crash", "hang", "obs.", "driver."])),
    "C08": Check(part(["rsp.", "crash", "hang", "obs."])),
}
