"""Which driver decides which property."""
import importlib


class Part:
    """One specification bound to the code by one driver.

    spec       name of the TLA+ module (spec/<spec>.tla, spec/TR_<spec>.tla)
    mc         exhaustive models (spec/MC_*.tla with .cfg, and optionally *_T.cfg for thorough)
    gen        turns a behaviour printed by TLC into a scenario (None: not used)
    scenarios  (rng, tier) -> scenarios
    execute    (scenario, events) runs the real code, appending events; returns cfg
    owns       clause prefixes that count for this property (None: all)
    """

    def __init__(self, spec, execute, scenarios=None, mc=(), gen=None, gen_cap=(3000, 60000),
                 owns=None, wall=10, fork_each=True):
        self.spec, self.execute = spec, execute
        self.scenarios = scenarios or (lambda rng, tier: [])
        self.mc, self.gen, self.gen_cap = list(mc), gen, gen_cap
        self.owns, self.wall, self.fork_each = owns, wall, fork_each


class Check:
    def __init__(self, *parts, assumptions=()):
        self.parts = list(parts)
        self.assumptions = list(assumptions)


MODULES = {}      # property -> module under drv/


def load(prop):
    import properties
    mod = properties.BY_ID[prop]["driver"]
    # uvm prints a banner when it is imported
    import os
    import sys
    sys.stdout.flush()
    keep = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        m = importlib.import_module("drv." + mod)
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(dn)
        os.close(keep)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    return m.CHECKS[prop]
