#!/usr/bin/env python3
"""Mutation run: run.py MUTANTS.jsonl OUT.jsonl [--frac F] [--seed N] [--workers N] [--match SUBSTR]
Applies each change through a build overlay (never to /repo), drops those the
repository's own tests catch, and runs the checks of the package until one fails."""
import argparse, hashlib, json, os, random, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
H = os.environ.get("MUT_HARNESS", "/verif/harness"); REPO = os.environ.get("MUT_REPO", "/repo")
sys.path.insert(0, "/verif/tools")
ap = argparse.ArgumentParser()
ap.add_argument("muts"); ap.add_argument("out"); ap.add_argument("--frac", type=float, default=1)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=7)
ap.add_argument("--match", default=""); ap.add_argument("--only", default="")
ap.add_argument("--lines", default="")
A = ap.parse_args()
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GOMAXPROCS="3", CGO_ENABLED="1")
MAP = {  # path prefix -> checks, the closest first
 "midi/queue": "C07 C08 C12", "midi/events": "C12 C07 C09 C08", "framework/voice": "C09", "framework/state": "C01 C02",
 "framework/bus": "C10 C08 C11", "framework/plugin": "C11", "framework/process": "C08 C12 C28", "framework/dsp": "C27 C13 C28",
 "framework/debug": "C32", "dsp/debug": "C32",
 "framework/param/smoother": "C06 C13 C28", "framework/param/formatters": "C04", "framework/param/builders": "C04 C03 C05",
 "framework/param/filter_types": "C04 C03 C05", "framework/param/registry": "C05 C01 C28", "framework/param": "C03 C04 C05 C01",
 "dsp/dynamics/limiter": "C18 C13 C16", "dsp/dynamics": "C17 C13 C16", "dsp/filter": "C19 C13 C16", "dsp/delay": "C20 C13 C16",
 "dsp/oscillator": "C21 C13", "dsp/utility/noise": "C21 C13", "dsp/utility/dcblocker": "C19 C13", "dsp/utility/parameter": "C33 C06 C13",
 "dsp/envelope": "C22 C13", "dsp/gain": "C23", "dsp/mix": "C23", "dsp/pan": "C23 C13", "dsp/interpolation": "C33", "dsp/analysis/fft": "C24",
 "dsp/analysis/spectrum": "C24", "dsp/analysis": "C25 C26", "dsp/reverb": "C29 C13 C16", "dsp/distortion": "C30 C13", "dsp/modulation": "C31 C13 C16",
 "dsp/buffer": "C23", "dsp/constants": "C23 C17",
}
RACE = open(H + "/race.txt").read().split()
def checks(f):
    f = f.split("/pkg/")[1]
    best = max((k for k in MAP if f.startswith(k)), key=len, default=None)
    return MAP[best].split() if best else []
def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"
def fails(o): return set(re.findall(r"--- FAIL: (\S+)", o))
def tests(f, ov, tmp):
    d = os.path.dirname(f)
    if d.endswith("/debug"):
        cmd = ["go", "test", "-vet=off", "-tags", "debug"] + ov + ["./" + os.path.relpath(d, REPO)]
    else:
        cmd = ["go", "test", "-vet=off"] + ov + ["./pkg/dsp/...", "./pkg/framework/...", "./pkg/midi/..."]
    return sh(cmd, REPO, 60)
base = {}
def one(m):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        src = open(m["file"]).read().encode()
        new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
        mf = tmp + "/" + os.path.basename(m["file"]); open(mf, "wb").write(new)
        json.dump({"Replace": {m["file"]: mf}}, open(tmp + "/ov.json", "w"))
        ov = ["-overlay", tmp + "/ov.json"]
        rc, o = sh(["go", "build"] + (["-tags", "debug"] if "debug" in m["file"] else []) + ov + ["./" + os.path.relpath(os.path.dirname(m["file"]), REPO)], REPO, 60)
        if rc: return "nobuild", ""
        rc, o = tests(m["file"], ov, tmp)
        if rc == 124 or fails(o) - base["debug" if "debug" in m["file"] else "all"] or "panic:" in o: return "tests", ""
        for f in ("go.mod", "go.sum"): shutil.copy(H + "/" + f, tmp)
        last = ""
        for c in (A.only.split() or checks(m["file"])):
            cmd = ["go", "build", "-buildvcs=false", "-o", tmp + "/" + c, "-modfile", tmp + "/go.mod"] + ov
            if c in RACE: cmd.insert(2, "-race")
            if c == "C32": cmd += ["-tags", "debug"]
            rc, o = sh(cmd + ["./checks/" + c.lower()], H, 120)
            if rc: return "harnessbuild", c + o[-300:]
            e = dict(ENV, TMPDIR=tmp, GORACE="halt_on_error=0 exitcode=66 log_path=" + tmp + "/race", GOTRACEBACK="none")
            rc, o = sh([tmp + "/" + c, "-tier", "quick", "-seed", "1", "-evidence", tmp + "/ev.json", "-replays", tmp + "/r", "-known", "/verif/known-findings.txt", "-shrink", "0s"], tmp, 90, e)
            if rc == 0: continue
            mm = re.search(r"FAILED \S+/(.*?): ", o)
            return "killed", c + " " + (mm.group(1) if mm else "rc%d" % rc)
        return "SURVIVED", ""
    except Exception as ex:
        return "error", repr(ex)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def main():
    ms = [json.loads(l) for l in open(A.muts)]
    rng = random.Random(A.seed)
    def keep(m):
        if A.match and not re.search(A.match, m["file"]): return False
        if not checks(m["file"]): return False
        key = "%s:%d:%d:%s:%d" % (m["file"], m["off"], m["end"], m["new"], A.seed)
        return int(hashlib.sha1(key.encode()).hexdigest()[:8], 16) / 2**32 < A.frac
    ms = [m for m in ms if keep(m)]
    rng.shuffle(ms)
    seen = set()
    if os.path.exists(A.out):
        for l in open(A.out):
            d = json.loads(l); seen.add((d["file"], d["off"], d["end"], d["new"]))
    ms = [m for m in ms if (m["file"], m["off"], m["end"], m["new"]) not in seen]
    print(len(ms), "mutants", flush=True)
    _, o = tests(REPO + "/pkg/dsp/x.go", [], "/tmp"); base["all"] = fails(o)
    _, o = tests(REPO + "/pkg/dsp/debug/x.go", [], "/tmp"); _, o2 = tests(REPO + "/pkg/framework/debug/x.go", [], "/tmp"); base["debug"] = fails(o) | fails(o2)
    print(base, flush=True)
    t0 = time.time(); n = 0; cnt = {}
    with open(A.out, "a") as out, ThreadPoolExecutor(A.workers) as ex:
        def job(m): return m, one(m)
        for m, (st, info) in ex.map(job, ms):
            m["status"], m["info"] = st, info
            out.write(json.dumps(m) + "\n"); out.flush()
            n += 1; cnt[st] = cnt.get(st, 0) + 1
            if n % 50 == 0: print(n, int(time.time() - t0), cnt, flush=True)
    print("done", cnt)
main()
