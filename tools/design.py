#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below, and per property what its harness, the known findings and the planted bugs say."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
I = "include/huira/"; M = "include/huira_impl/"; P = []
def prop(id, title, statement, quant, why, files, mech, observe, level_note, over=("inputs",), state=()): P.append(dict(id=id, title=title, level_note=level_note))
exec(open(os.path.join(V, "props_list.py")).read())
HOW = {}
exec(open(os.path.join(V, "tools", "design_how.py")).read())
out = [HEAD]
kf = open(os.path.join(V, "known-findings.txt")).read().splitlines()
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
out.append("## The properties\n")
for p in P:
    i = p["id"]; fs = [f for f in sorted(glob.glob(os.path.join(V, "harness", i + "*.cpp"))) if re.match(i + r"(_\w+)?\.cpp$", os.path.basename(f))]
    out.append("### %s %s\n" % (i, p["title"])); out.append("*Decided:* " + HOW[i] + "\n")
    ent = []; bound = []; ass = []; skip = []; modes = {}
    for f in fs:
        s = open(f).read()
        for m in re.finditer(r"^//! (entry|bound|assume): (.*)$", s, re.M):
            if m[1] == "bound": bound.append(m[2])
            elif m[1] == "assume": ass.append(m[2])
            else:
                n = m[2].split()[0]; mode = "fp" if "mode=fp" in m[2] else "real"; modes[mode] = modes.get(mode, 0) + 1
                c = re.search(r"^ENTRY " + n + r"\(\) \{ +// (.*)$", s, re.M); ent.append(n + (" (%s)" % c[1] if c else "") + (" [thorough only]" if "tier=thorough" in m[2] else ""))
    out.append("*Entries* (%s): " % ", ".join("%d %s" % (k, {"real": "in exact real arithmetic", "fp": "bit-precise"}[m]) for m, k in sorted(modes.items())) + "; ".join(ent) + ".\n")
    if bound: out.append("*Bounds:* " + "; ".join(bound) + ".\n")
    if p.get("level_note") and p["level_note"] not in " ".join(bound): out.append("*Limits:* " + p["level_note"] + "\n")
    if ass: out.append("*Assumed:* " + "; ".join(ass) + ".\n")
    fx = [l.split(" ", 3) for l in kf if l.startswith("fixed: property=" + i + " ")]
    if fx: out.append("*Repaired:* " + "; ".join("%s (%s)" % (l[3], l[2]) for l in fx) + ".\n")
    kn = [l for l in kf if l.startswith("finding: property=" + i + " ")]
    if kn: out.append("*Known finding, not repaired:* " + "; ".join(l.split('"', 2)[2].strip() for l in kn) + ".\n")
    if i in seeds: out.append("*Planted, all caught by this check:* " + "; ".join("%s: %s (needs %s)" % s for s in seeds[i]) + ".\n")
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
