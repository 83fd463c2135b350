#!/usr/bin/env python3
"""plant.py NAME PROPERTY PKG DEMO_TEST_GO  <<< patch commands already applied in /tmp/wt (a copy of /repo)

Confirms a planted bug (builds, stable tests pass, demo passes clean and fails
patched), stores it in seeded/NAME and reports whether the property's check
catches it.  Usage: edit files under /tmp/wt/repo, then run this."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, prop, pkg, demo, needs, breaks = sys.argv[1:7]
WT = "/tmp/wt/repo"
def sh(c, cwd=None, env=None, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
diff = sh("git diff", WT).stdout
if not diff.strip():
    sys.exit("no change in " + WT)
d = os.path.join(V, "seeded", name)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
if os.path.abspath(demo) != os.path.join(d, "demo_test.go"):
    shutil.copy(demo, os.path.join(d, "demo_test.go"))
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Runs demo_test.go (beside this script) inside ./%s of the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
timeout 200 go test -overlay "$T/o.json" -vet=off -count=1 -run '^TestZZDemo$' ./%s
''' % (pkg, pkg, pkg))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
# clean demo
r = sh(d + "/demo.sh", "/repo")
assert r.returncode == 0, "demo fails on the clean tree:\n" + r.stdout[-3000:]
# patched
assert sh("git status --short", "/repo").stdout.strip() == "", "repo not clean"
r = sh("git apply %s/patch.diff" % d, "/repo")
assert r.returncode == 0, r.stdout
ok = True
try:
    r = sh("/tmp/rt.sh", "/repo"); print(r.stdout.strip()[-300:]); ok &= r.returncode == 0
    r = sh(d + "/demo.sh", "/repo"); print("demo patched rc", r.returncode); ok &= r.returncode != 0
    if r.returncode == 0 or "build failed" in r.stdout: print(r.stdout[-2000:]); ok = False
    for p in prop.split(","):
        r = sh("VERIF_SEED=1 ./check %s quick" % p, V)
        print("CHECK", p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"); print("   ", r.stdout.strip()[:500])
finally:
    sh("git checkout -- .", "/repo")
sh("git checkout -- .", WT)
print("PLANTED" if ok else "INVALID", name)
