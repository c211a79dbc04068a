#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from harness/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import properties
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in properties.PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
        drv = p["driver"]
        ok = drv and os.path.exists(os.path.join(V, "harness", "drv", drv + ".py")) and not p["na"]
        if ok:
            src = open(os.path.join(V, "harness", "drv", drv + ".py")).read()
            ok = '"%s"' % p["id"] in src
        if ok:
            c = "/opt/venv/bin/python -B harness/check.py " + p["id"]
            checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                "technique": "TLA+ specification model-checked with TLC; TLC-generated and random behaviours replayed on the code; TLC trace validation",
                "level": "model_checking",
                "level_note": "The design is checked exhaustively within the constants of the MC_*.cfg files; the code is bound to it by "
                    "validating every recorded trace of generated behaviours. Assumes the traces exercised represent the code's behaviour "
                    "(bounded, seeded), and trusts TLC, Python and, for concurrent properties, the simulator stand-in below cocotb. " + p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "No check built yet."})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "UVM_VERIF", "enable": "No hooks were needed: the checks observe the public API of the unmodified code; the variable is unused.", "source_commits": []},
     "notes": "All specifications are TLA+ (spec/*.tla). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
