#!/usr/bin/env python3
"""overlay.py OUT.json: the overlay that puts /verif/contracts into the packages of /repo (never written to /repo)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEST = {"verifspec": "mqtt/verifspec", "primitives": "mqtt/packets/primitives", "packets": "mqtt/packets",
        "mqtt": "mqtt", "memory": "mqtt/storage/memory"}
def overlay(tests=True):
    rep = {}
    for d, dst in DEST.items():
        src = os.path.join(V, "contracts", d)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go") and (tests or not f.endswith("_test.go")):
                rep[os.path.join(REPO, dst, ("" if d == "verifspec" else "zz_verif_") + f)] = os.path.join(src, f)
    return {"Replace": rep}
if __name__ == "__main__":
    json.dump(overlay(), open(sys.argv[1], "w"), indent=1)
