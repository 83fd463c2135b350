#!/usr/bin/env python3
"""rewrite/run.py OUT.jsonl [--rules a,b] [--match RE] [--workers N]: rewrites the floating-point
expressions of one file at a time (see main.go) through a build overlay and runs
the checks, which must stay quiet. A failing one is reported with the sub-check."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--rules", default="lerp+recip+assoc+fma,distribute")
ap.add_argument("--match", default=""); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--scale", default="1")
ap.add_argument("--tool", default="/tmp/rewrite")
A = ap.parse_args()
src = open("/verif/tools/mutate/run.py").read()
exec("import os\n" + src[src.index("ENV = "):src.index("RACE = ")].replace("H +", "'/verif/harness' +"))
H = os.environ.get("MUT_HARNESS", "/verif/harness"); REPO = os.environ.get("MUT_REPO", "/repo")
RACE = open(H + "/race.txt").read().split()
def checks(f):
    f = f.split("/pkg/")[1]
    best = max((k for k in MAP if f.startswith(k)), key=len, default=None)
    c = MAP[best].split() if best else []
    if f.startswith("dsp/"): c += [x for x in ("C13", "C16", "C28", "C27") if x not in c]
    return c
def sh(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def tests(ov):
    rc, o = sh(["go", "test", "-vet=off"] + ov + ["./pkg/dsp/...", "./pkg/framework/...", "./pkg/midi/..."], REPO, 200)
    return set(re.findall(r"--- FAIL: (\S+)", o))
def one(job):
    f, rule = job
    tmp = tempfile.mkdtemp(prefix="rw-")
    try:
        p = subprocess.run([A.tool, rule, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, cwd=REPO)
        if p.returncode: return dict(file=f, rule=rule, status="error", info=p.stderr[-300:])
        n = int(p.stderr.strip().split("\n")[-1])
        if n == 0: return None
        mf = tmp + "/" + os.path.basename(f); open(mf, "w").write(p.stdout)
        json.dump({"Replace": {f: mf}}, open(tmp + "/ov.json", "w")); ov = ["-overlay", tmp + "/ov.json"]
        rc, o = sh(["go", "build"] + ov + ["./" + os.path.relpath(os.path.dirname(f), REPO)], REPO, 100)
        if rc: return dict(file=f, rule=rule, n=n, status="nobuild", info=o[-300:])
        t = sorted(tests(ov) - base)
        for g in ("go.mod", "go.sum"): shutil.copy(H + "/" + g, tmp)
        bad = []
        for c in checks(f):
            cmd = ["go", "build", "-buildvcs=false", "-o", tmp + "/" + c, "-modfile", tmp + "/go.mod"] + ov
            if c in RACE: cmd.insert(2, "-race")
            if c == "C32": cmd += ["-tags", "debug"]
            rc, o = sh(cmd + ["./checks/" + c.lower()], H, 200)
            if rc: bad.append(c + " build " + o[-200:]); continue
            rc, o = sh([tmp + "/" + c, "-tier", "quick", "-seed", "1", "-evidence", tmp + "/ev.json", "-replays", tmp + "/r", "-known", "/verif/known-findings.txt", "-shrink", "0s", "-scale", A.scale], tmp, 900, dict(ENV, TMPDIR=tmp))
            if rc:
                bad += [c + " " + x for x in re.findall(r"FAILED (\S+?: .{0,300})", o)] or [c + " rc%d %s" % (rc, o[-200:])]
        return dict(file=f, rule=rule, n=n, tests=t, status="ALARM" if bad else "quiet", info=bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
base = tests([])
files = sorted(os.path.join(d, x) for d, _, xs in os.walk(REPO + "/pkg") for x in xs if x.endswith(".go") and not x.endswith("_test.go") and re.search("/pkg/(dsp|framework|midi)", d))
files = [f for f in files if re.search(A.match, f) and checks(f)]
with open(A.out, "a") as out, ThreadPoolExecutor(A.workers) as ex:
    for r in ex.map(one, [(f, r) for f in files for r in A.rules.split(",")]):
        if r:
            out.write(json.dumps(r) + "\n"); out.flush()
            if r["status"] != "quiet" or r.get("tests"): print(r, flush=True)
print("done")
