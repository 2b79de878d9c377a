#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py : writes seeded/<id>/ from a spec, then (unless --no-verify) confirms it:
   patch applies, builds, stable tests pass, demo passes without and fails with the patch.
   SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)...], demo (text of demo.rs)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["id"])
os.makedirs(d, exist_ok=True)
R = "/repo"
def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert run("git", "-C", R, "status", "--porcelain").stdout == "", "repo dirty"
try:
    for f, old, new in ns["edits"]:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(run("git", "-C", R, "diff").stdout)
finally:
    run("git", "-C", R, "checkout", "--", ".")
open(os.path.join(d, "demo.rs"), "w").write(ns["demo"].lstrip("\n"))
shutil.copy(os.path.join(V, "tools/seed_demo.sh"), os.path.join(d, "demo.sh"))
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if "--no-verify" in sys.argv: sys.exit(0)
r0 = run("bash", d + "/demo.sh", cwd=R)
print("demo on base:", r0.returncode)
if r0.returncode: print(r0.stdout[-3000:])
try:
    assert run("git", "-C", R, "apply", d + "/patch.diff").returncode == 0
    r = run("bash", "/opt/vp/build.sh"); print("build:", r.returncode)
    if r.returncode: print(r.stdout[-3000:])
    run("bash", "/opt/vp/test.sh", "/tmp/w/seed_test.json")
    t = json.load(open("/tmp/w/seed_test.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    print("tests:", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in t.items()}, "baseline", len(stable) if hasattr(stable, "__len__") else stable)
    print("failed:", t.get("failed"))
    r1 = run("bash", d + "/demo.sh", cwd=R); print("demo with patch:", r1.returncode)
    print("\n".join(r1.stdout.splitlines()[-12:]))
    if "--check" in sys.argv:
        c = run("python3", "run.py", "check", ns["prop"], cwd=V); print("check:", c.returncode); print(c.stdout[-1500:])
finally:
    run("git", "-C", R, "checkout", "--", ".")
