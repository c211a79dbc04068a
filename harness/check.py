#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE]: decide one property on /repo's current tree.

1. TLC model-checks the design (spec/MC_*.tla): every invariant in every reachable
   state within the constants of the .cfg; the same run prints one behaviour per
   transition of the state graph (@@GEN).
2. Those behaviours, and seeded random scenarios, are executed on the real code.
3. TLC validates every recorded trace against the specification (spec/TR_*.tla).
"""
import sys
sys.dont_write_bytecode = True
import json
import os
import random
import shutil
import atexit
import tempfile
import time
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
ARGS = [os.path.abspath(a) for a in sys.argv]
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("_VCHK") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["_VCHK"] = "1"
    py = "/opt/venv/bin/python"
    os.execv(py, [py, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import vlib                                       # noqa: E402
import registry                                   # noqa: E402


def known():
    try:
        with open(os.path.join(vlib.VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def matches(k, prop, part, scn, v):
    """A listed finding: this property, this named scenario, this clause."""
    return (k.get("status") == "open" and k["property"] == prop
            and k["scenario"] == scn.get("name") and k["clause"] == v["clause"])


def main():
    prop = sys.argv[1]
    t0 = time.time()
    only = None
    if "--replay" in sys.argv:
        with open(ARGS[sys.argv.index("--replay") + 1]) as f:
            only = json.load(f)
    d = tempfile.mkdtemp(prefix="chk.")      # code under test may write files where it runs
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    os.chdir(d)
    chk = registry.load(prop)
    mcs = []
    if not only:
        for i, part in enumerate(chk.parts):
            for mc in part.mc:
                cfg = mc if (vlib.QUICK or not os.path.exists(os.path.join(vlib.SPEC, mc + "_T.cfg"))) else mc + "_T"
                mcs.append((i, mc, vlib.TLC(mc, cfg=cfg, workers=1 if part.gen else 4)))
    states = trans = ntr = 0
    samples = []
    viol = []
    hits = []
    nev = 0
    mcinfo = []
    gens = {}
    for i, mc, t in mcs:
        r = t.wait()
        if not r.ok:
            raise vlib.MachineryError("model checking of %s failed\n%s" % (mc, r.out[-5000:]))
        states += r.distinct
        trans += r.states
        g = [json.loads(s[6:]) for s in r.printed if s.startswith("@@GEN ")]
        gens.setdefault(i, []).extend(g)
        mcinfo.append({"model": mc, "distinct_states": r.distinct, "states_generated": r.states,
                       "behaviours_emitted": len(g), "wall_s": round(r.wall, 1)})
    partinfo = []
    clauses = {}
    for i, part in enumerate(chk.parts):
        if only and only["part"] != i:
            continue
        rng = random.Random("%s/%s/%d" % (prop, vlib.SEED, i))
        scns = []
        ngen = 0
        if only:
            scns = [only["scenario"]]
        else:
            if part.gen:
                hs = gens.get(i, [])
                cap = part.gen_cap[0] if vlib.QUICK else part.gen_cap[1]
                if len(hs) > cap:
                    hs = rng.sample(hs, cap)
                scns += [part.gen(h) for h in hs]
                ngen = len(scns)
            scns += list(part.scenarios(rng, vlib.TIER))
        t1 = time.time()
        traces = vlib.run_scenarios(part.execute, scns, wall=part.wall, fork_each=part.fork_each)
        t2 = time.time()
        nev += sum(len(t["ev"]) for t in traces)
        # identical traces need one validation only
        uniq, back = [], {}
        idx = []
        for t in traces:
            k = json.dumps(t, sort_keys=True)
            if k not in back:
                back[k] = len(uniq)
                uniq.append(t)
            idx.append(back[k])
        verd, st, gen = vlib.validate(part.spec, uniq)
        if os.environ.get("VERIF_TIMING"):
            print("  %s: models %.1fs, execution %.1fs, validation %.1fs" % (
                part.spec, t1 - t0, t2 - t1, time.time() - t2))
        states += st
        trans += gen
        ntr += len(traces)
        partinfo.append({"spec": part.spec, "scenarios": len(scns), "from_model": ngen,
                         "distinct_traces": len(uniq)})
        if traces and not only:
            k = max(range(len(traces)), key=lambda j: (len(traces[j]["ev"]) < 40, len(traces[j]["ev"])))
            samples.append({"spec": part.spec, "cfg": traces[k]["cfg"], "events": traces[k]["ev"][:25]})
        for k, scn in enumerate(scns):
            v = verd[idx[k]]
            if v is None:
                continue
            if part.owns and v["clause"] not in ("crash", "hang", "outside-spec-domain") \
                    and not any(v["clause"].startswith(o) for o in part.owns):
                continue
            f = [x for x in known() if matches(x, prop, i, scn, v)]
            if f:
                hits.append(f[0])
            else:
                viol.append((i, scn, traces[k], v))
                clauses[v["clause"]] = clauses.get(v["clause"], 0) + 1
    for f in {h["id"]: h for h in hits}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    rc = 0
    rd = os.path.join(vlib.EVID, "replay")
    seen = set()
    for n, (i, scn, tr, v) in enumerate(viol):
        if v["clause"] in seen:
            continue
        seen.add(v["clause"])
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s_%d.json" % (prop, len(seen)))
        with open(path, "w") as f:
            json.dump({"property": prop, "part": i, "scenario": scn, "trace": tr, "verdict": v,
                       "replay": "harness/check.py %s --replay %s" % (prop, path)}, f, indent=1)
        print("  clause %s: event %d of a %s trace: %s" % (
            v["clause"], v["l"], chk.parts[i].spec, json.dumps(v["ev"])[:600]))
        print("     specification: %s   (%d scenario(s))" % (json.dumps(v["exp"])[:600], clauses[v["clause"]]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if not only:
        os.makedirs(vlib.EVID, exist_ok=True)
        ev = {"property": prop, "tier": "quick" if vlib.QUICK else "thorough", "seed": vlib.SEED,
              "level": "model_checking",
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr,
                           "events_validated": nev, "models": mcinfo, "drivers": partinfo,
                           "samples": samples},
              "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": len(viol)}
        with open(os.path.join(vlib.EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d scenarios, %d events, %d states: %s (%.1fs)" % (
        prop, ntr, nev, states, "violated" if rc else "held", time.time() - t0))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.MachineryError as e:
        print("ERROR:", e)
        sys.exit(3)
