#!/usr/bin/env python3
"""Writes tools/baseline.json: the token skeleton of each function under contract in /repo (run by hand, on a clean /repo)."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vt = os.path.join(HERE, ".build", "translator", "release", "vtrans")
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([vt, "--repo", "/repo", "--contracts", os.path.join(HERE, "contracts"), "--out", d + "/o.rs", "--report", d + "/r.json"])
    r = json.load(open(d + "/r.json"))
json.dump(dict({f["id"]: f["skeleton"] for f in r["functions"]}, **{"derives": r["derives"]}), open(os.path.join(HERE, "tools", "baseline.json"), "w"), indent=0, sort_keys=True)
