"""mkseed.py FILE.py: make /verif/seeded/<id>/ from a description.

The file defines SEEDS = [dict(id, property, file, edits=[(old, new)...], demo=python source, needs, breaks)].
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="mk.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        fs = s["file"] if isinstance(s["file"], list) else [s["file"]]
        for k, (old, new, *rest) in enumerate(s["edits"]):
            p = os.path.join(w, "r", "src/uvm", rest[0] if rest else fs[0])
            t = open(p).read()
            if t.count(old) != 1:
                print("!!", s["id"], "edit", k, "matches", t.count(old))
                raise SystemExit(1)
            open(p, "w").write(t.replace(old, new))
        d = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        os.rmdir(w)
    o = os.path.join(V, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    demo = s["demo"]
    if "fakesim" in demo:
        shutil.copy(V + "/harness/fakesim.py", o)
    open(o + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                      "sys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n" + demo)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(o + "/meta.json", "w"), indent=1)
    print("made", s["id"])
