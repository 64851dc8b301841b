#!/usr/bin/env python3
"""tryseed.py ID [--check]: confirm a planted bug (applies, builds, stable tests pass, demo 0 -> nonzero), optionally run its check."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ok = True
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(f"{d}/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    r = {}
    q = sh(f"bash {d}/demo.sh", cwd="/repo")
    r["demo_clean"] = q.returncode
    if q.returncode: print(q.stdout[-1500:], q.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "patch does not apply", a.stderr); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        r["build"] = b.returncode
        if b.returncode: print(b.stderr[-1500:])
        sh("bash /opt/vp/test.sh /tmp/ts_out.json")
        out = json.load(open("/tmp/ts_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(out.get("passed", out.get("pass", [])))
        want = base.get("stable", base.get("passed", base.get("pass", [])))
        r["tests_lost"] = [t for t in want if t not in passed][:5]
        q = sh(f"bash {d}/demo.sh", cwd="/repo")
        r["demo_bug"] = q.returncode
        r["demo_out"] = (q.stdout + q.stderr)[-200:]
        if "--check" in sys.argv:
            c = sh(f"python3 run.py {meta['property']} quick", cwd=V)
            r["check"] = c.returncode
            r["check_out"] = c.stdout[-700:]
    finally:
        sh("git -C /repo checkout -- .")
    print(i, json.dumps(r, indent=1))
