"""A UVM test run on the fake simulator: helpers shared by drivers."""
import os
import fakesim
import uvm
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.comps.uvm_test import UVMTest
from uvm.macros.uvm_object_defines import uvm_component_utils
from uvm.base.uvm_object_globals import UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_NO_ACTION, UVM_COUNT, UVM_DISPLAY
from cocotb.utils import get_sim_time


def now():
    return int(get_sim_time("ns"))


def root():
    return UVMCoreService.get().get_root()


def quiet(*comps):
    for c in comps or (root(),):
        for sev in (UVM_INFO, UVM_WARNING):
            c.set_report_severity_action(sev, UVM_NO_ACTION)
        c.set_report_severity_action(UVM_ERROR, UVM_COUNT | (UVM_DISPLAY if os.environ.get("VERIF_SHOW") else 0))


def errors():
    """Errors reported so far (counted, not shown, after quiet())."""
    return UVMCoreService.get().get_report_server().get_severity_count(UVM_ERROR)


class VTest(UVMTest):
    """Calls the hooks the driver stored in VTest.hooks."""
    hooks = {}

    def build_phase(self, phase):
        super().build_phase(phase)
        if "build" in VTest.hooks:
            VTest.hooks["build"](self)

    async def run_phase(self, phase):
        if "run" in VTest.hooks:
            phase.raise_objection(self)
            await VTest.hooks["run"](self, phase)
            phase.drop_objection(self)

    def extract_phase(self, phase):
        if "extract" in VTest.hooks:
            VTest.hooks["extract"](self)


uvm_component_utils(VTest)


def run(hooks, ev, seed=0, pre=None, name="VTest"):
    """run_test() with the given hooks; appends hang to ev if the test does not end."""
    VTest.hooks = hooks

    async def main():
        quiet()
        if pre:
            pre()
        await uvm.run_test(name)
    st, v, _ = fakesim.run(main, seed=seed)
    if st == "exc":
        raise v
    if st != "ok":
        ev.append({"op": "hang"})
