"""A deterministic, seedable stand-in for the HDL simulator below cocotb.

cocotb's Python scheduler reaches the simulator through a handful of functions of
`cocotb.simulator`.  This module replaces exactly those functions with a discrete
event queue, so that the *real* cocotb scheduler, triggers and tasks (and on top of
them the real uvm-python code) run in one ordinary Python process.

Events due at the same time are ordered by a pseudo-random priority drawn from the
seed (order is unspecified in a real simulator): this is how schedules are explored.
"""
import heapq
import logging
import os
import random
import sys
import warnings

os.environ.setdefault("COCOTB_ANSI_OUTPUT", "0")
warnings.simplefilter("ignore")

# uvm's message macros look up the caller with inspect.stack(); the source context it would
# collect is not used, and reading it costs more than the rest of a scenario
import inspect                                    # noqa: E402
_stack, _gfi = inspect.stack, inspect.getframeinfo
inspect.getframeinfo = lambda frame, context=0: _gfi(frame, 0)
inspect.stack = lambda context=0: _stack(0)

import cocotb                                     # noqa: E402
from cocotb import simulator                      # noqa: E402


class _Cb:
    __slots__ = ("fn", "args", "dead", "when")

    def __init__(self, when, fn, args):
        self.when, self.fn, self.args, self.dead = when, fn, args, False

    def deregister(self):
        self.dead = True


class Sim:
    """One simulation: a time, and three queues (timed, rw-synch, read-only)."""

    def __init__(self, seed=None, shuffle=True):
        self.now = 0
        self.rng = random.Random(seed)
        self.shuffle = shuffle
        self.heap = []
        self.n = 0
        self.rw, self.ro, self.nts = [], [], []
        self.steps = 0

    def timed(self, t, fn, *a):
        cb = _Cb(self.now + int(t), fn, a)
        self.n += 1
        prio = self.rng.random() if (self.shuffle and t > 0) else 0
        heapq.heappush(self.heap, (cb.when, prio, self.n, cb))
        return cb

    def _q(self, q, fn, a):
        cb = _Cb(self.now, fn, a)
        q.append(cb)
        return cb

    def install(self):
        simulator.is_running = lambda: True
        simulator.get_precision = lambda: -12
        simulator.get_sim_time = lambda: (self.now >> 32, self.now & 0xffffffff)
        simulator.register_timed_callback = self.timed
        simulator.register_rwsynch_callback = lambda f, *a: self._q(self.rw, f, a)
        simulator.register_readonly_callback = lambda f, *a: self._q(self.ro, f, a)
        simulator.register_nextstep_callback = lambda f, *a: self._q(self.nts, f, a)
        simulator.register_value_change_callback = lambda *a: None
        simulator.log_level = lambda *a: None

    def _pop(self, q):
        while q:
            cb = q.pop(0)
            if not cb.dead:
                return cb
        return None

    def step(self):
        """Fire one callback; False when nothing is left (quiescence)."""
        cb = None
        while self.heap and self.heap[0][3].dead:
            heapq.heappop(self.heap)
        if self.heap and self.heap[0][0] <= self.now:
            cb = heapq.heappop(self.heap)[3]
        if cb is None:
            cb = self._pop(self.rw)
        if cb is None:
            cb = self._pop(self.ro)
        if cb is None:
            if not self.heap:
                cb = self._pop(self.nts)
                if cb is None:
                    return False
                self.now += 1
            else:
                self.now = self.heap[0][0]
                cb = self._pop(self.nts)
                if cb is None:
                    return True          # time advanced
        cb.dead = True
        self.steps += 1
        cb.fn(*cb.args)
        return True


class Quiescent(Exception):
    """Nothing left to run although the test has not finished."""


class Runaway(Exception):
    """The step or time budget is used up (livelock)."""


class _Parent:
    def __init__(self, fn):
        self._func = fn


def run(fn, seed=None, shuffle=True, max_steps=200000, max_time=10**15, args=()):
    """Run async function `fn` as a cocotb test.  -> (status, value, sim)

    status: 'ok' (value: what fn returned), 'exc' (value: the exception),
    'quiescent' (nothing left to run, fn unfinished), 'runaway'.
    """
    from cocotb.scheduler import Scheduler
    from cocotb.task import _RunningTest
    sim = Sim(seed, shuffle)
    sim.install()
    logging.getLogger("cocotb").setLevel(logging.CRITICAL)
    done = []
    cocotb.argv = getattr(cocotb, "argv", None) or []
    cocotb.argc = len(cocotb.argv)
    cocotb.plusargs = getattr(cocotb, "plusargs", None) or {}
    cocotb.RANDOM_SEED = 1
    cocotb.SIM_NAME = "fakesim"
    cocotb.SIM_VERSION = "1"
    sch = cocotb.scheduler = Scheduler(handle_result=lambda t: done.append(t))

    async def body():
        return await fn(*args)
    test = _RunningTest(body(), _Parent(fn))
    sch._add_test(test)
    status = None
    while not done:
        if sim.steps > max_steps or sim.now > max_time:
            status = "runaway"
            break
        if not sim.step():
            status = "quiescent"
            break
    if done:
        try:
            return "ok", test._outcome.get(), sim
        except BaseException as e:      # noqa
            return "exc", e, sim
    return status, None, sim
