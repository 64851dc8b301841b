"""Helper: new(id, property, [(file, old, new)], needs, what, demo_rs): write seeded/<id> (patch made from /repo, then undone)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def new(i, prop, edits, needs, what, demo):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout == b""
    try:
        for f, o, n in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(o) == 1, (i, f, s.count(o))
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    subprocess.check_call(["python3", os.path.join(V, "demokit", "mkseed.py"), i, prop, needs, what])
