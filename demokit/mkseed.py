#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT  (cwd: anywhere; seeded/ID must hold patch.diff and demo.rs)"""
import sys, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, needs, what = sys.argv[1:5]
d = os.path.join(V, "seeded", i)
k = os.path.join(d, "kit")
shutil.rmtree(k, ignore_errors=True)
os.makedirs(k)
for x in ("sds", "bindings", "gobind", "shims", "demo"):
    shutil.copytree(os.path.join(V, "demokit", x), os.path.join(k, x))
for x in ("Cargo.toml", "Cargo.lock"):
    shutil.copy(os.path.join(V, "demokit", x), k)
shutil.copy(os.path.join(V, "demokit", "demo.sh"), d)
json.dump({"property": p, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
