#!/usr/bin/env python3
"""rerun.py REPLAY.json: run the recorded failing case of a replay file on the real code again."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
if not r.get("case"):
    print("no recorded case (failed obligations only, or a process death):", r.get("failing_input"))
    sys.exit(0)
d = tempfile.mkdtemp(prefix="verif-rerun-")
try:
    f = os.path.join(d, "draws.json")
    c = r["case"]
    json.dump({"Case": c["case"], "Draws": c["draws"]}, open(f, "w"))
    rep = check.Replay(r["property"], d)
    x = rep.run(1000, draws=f, seed=1)
    print(x[0] if x else "the case passes now", rep.err)
    sys.exit(1 if x else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
