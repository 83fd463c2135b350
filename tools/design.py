#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, props.py, the checks, seeded/ and known-findings.txt."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
from props import PROPS, NA
from design_text import HEAD, TAIL, HOW


def lit(s):  # a Go string literal
    return json.loads('"%s"' % s)


def subs(cid):
    out = []
    for g in sorted(glob.glob("%s/harness/checks/%s/*.go" % (V, cid.lower()))):
        x = open(g).read()
        for m in re.finditer(r'Name: "([^"]+)",', x):
            seg = x[m.end():m.end() + 1800]
            n = seg.find('Name: "')
            seg = seg if n < 0 else seg[:n]
            r = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', seg)
            q = re.search(r'Quick: (\d+)', seg)
            t = re.search(r'Thorough: (\d+)', seg)
            if r and q:
                out.append((m.group(1), lit(r.group(1)), q.group(1), t.group(1) if t else "-"))
    return out


def assumptions(cid):
    for g in glob.glob("%s/harness/checks/%s/*.go" % (V, cid.lower())):
        m = re.search(r'Assumptions:\s*\[\]string\{(.*?)\}[,)]', open(g).read(), re.S)
        if m:
            return [lit(s) for s in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))]
    return []


def seeded():
    d = {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        j = json.load(open(m))
        d.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["needs"], j["what_it_breaks"]))
    return d


fixes = {}
for l in open(V + "/known-findings.txt"):
    m = re.match(r"(fixed|finding): property=(\w+) (\S+) (.*)", l)
    if m:
        fixes.setdefault(m.group(2), []).append((m.group(1), m.group(3), m.group(4)))
bugs = seeded()
out = [HEAD.strip(), ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), ""]
    if i in NA:
        out += ["Not applicable: " + NA[i], ""]
        continue
    out += [HOW[i].strip(), "", "Sub-checks (quick / thorough cases):", ""]
    for n, r, q, t in subs(i):
        out.append("- `%s` (%s / %s): %s." % (n, q, t, r.rstrip(".")))
    out.append("")
    a = assumptions(i)
    if a:
        out += ["Assumes: " + "; ".join(s.rstrip(".") for s in a) + ".", ""]
    if i in bugs:
        out += ["Planted bugs, all caught by `./check %s quick`:" % i, ""]
        out += ["- `%s`: %s (needs: %s)." % (b[0], b[2].rstrip("."), b[1].rstrip(".")) for b in bugs[i]]
        out.append("")
    if i in fixes:
        out += ["Genuine defects found here:", ""]
        out += ["- %s (%s): %s." % ("repaired" if k == "fixed" else "recorded", c, w.rstrip(".")) for k, c, w in fixes[i]]
        out.append("")
out += [TAIL.strip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines;", sum(map(len, bugs.values())), "planted;", sum(map(len, fixes.values())), "defects")
