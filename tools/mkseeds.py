#!/usr/bin/env python3
"""Regenerates /verif/seeded from seedspec.py and tries each planted bug in a scratch worktree.
usage: mkseeds.py [--notest] [--nocheck] [ID...]"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get("SEED_REPO", "/repo"); S = []
def seed(id, prop, edits, needs, breaks, demo, libs="", stub="", pre=""): S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, libs=libs, stub=stub, pre=pre))
exec(open(os.path.join(V, "tools", "seedspec.py")).read())
args = [a for a in sys.argv[1:] if a[0] != "-"]; flags = [a for a in sys.argv[1:] if a[0] == "-"]
HEAD = r'''// standalone demonstration; exit 0 when the guarantee holds
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>
namespace fs = std::filesystem;
#include "glm/glm.hpp"
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
#define NEAR(a, b, t) EXPECT(std::fabs(double(a) - double(b)) <= (t))
#define THROWS(...) [&] { try { __VA_ARGS__; } catch (...) { return true; } return false; }()
'''
SH = '''#!/bin/sh
# run with cwd at the repository root
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3; trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O0 -w %s -I"$PWD/include" -o "$w/demo" "$d/demo.cpp" %s || exit 4
cd "$w" && timeout 100 ./demo
'''
def sh(c, cwd=None, t=900, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env); return p.returncode, p.stdout.decode("utf8", "replace")
def one(s, slot):
    wt = "/tmp/seedwt%d" % slot; d = os.path.join(V, "seeded", s["id"]); 
    if not os.path.isdir(wt): sh("git clone -q %s %s" % (REPO, wt))
    sh("git fetch -q && git reset -q --hard origin/HEAD && git clean -qfdx -e _build", wt)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(HEAD + s["pre"] + "\nint main() {\n" + s["demo"] + "\n    return bad;\n}\n")
    if s["stub"]:
        for x in s["stub"].split(): shutil.copytree(os.path.join(V, "harness", "stubs", x), os.path.join(d, "stubs", x))
    open(d + "/demo.sh", "w").write(SH % ('-I"$d/stubs"' if s["stub"] else "", s["libs"])); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = [s["id"], s["prop"]]
    rc, out = sh(d + "/demo.sh", wt); r.append("clean:%s" % ("ok" if rc == 0 else "FAIL %d %s" % (rc, out[-600:])))
    for f, a, b in s["edits"]:
        p = os.path.join(wt, f); t = open(p).read()
        if t.count(a) < 1: return r + ["EDIT NOT FOUND in %s: %s" % (f, a)]
        if t.count(a) > 1: return r + ["EDIT AMBIGUOUS in %s: %s" % (f, a)]
        open(p, "w").write(t.replace(a, b, 1))
    rc, out = sh("git diff", wt); open(d + "/patch.diff", "w").write(out)
    rc, out = sh(d + "/demo.sh", wt); r.append("patched:%s" % ("fails" if rc == 1 or rc > 100 else "BAD rc=%d %s" % (rc, out[-500:])))
    if "--notest" not in flags:
        sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/seedb%d.sh; sed 's#/repo#%s#g; s#/opt/vp/build.sh#/tmp/seedb%d.sh#' /opt/vp/test.sh > /tmp/seedt%d.sh" % (wt, slot, wt, slot, slot))
        rc, out = sh("bash /tmp/seedt%d.sh /tmp/seedo%d.json" % (slot, slot))
        o = json.load(open("/tmp/seedo%d.json" % slot)); base = json.load(open("/opt/vp/BASELINE.json")); st = base["stable"]
        miss = [x for x in st if x not in o["passed"]]; r.append("tests:%s" % ("ok" if not miss else "BROKEN %d %s" % (len(miss), out[-300:])))
    if "--nocheck" not in flags:
        t0 = time.time(); rc, out = sh("%s/check.py %s quick" % (V, s["prop"]), V, 1000, dict(os.environ, HUIRA_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", VP_EVID="/tmp/seedev%d" % slot))
        v = [l for l in out.splitlines() if l.startswith("  ") and "/" in l]; r.append("check:%s %.0fs %s" % ("CAUGHT" if rc == 1 else "MISSED" if rc == 0 else "ERROR rc=%d" % rc, time.time() - t0, (v[0].strip()[:150] if v else out[-300:])))
    return r
todo = [s for s in S if not args or s["id"] in args or s["prop"] in args]
N = 3
def chunk(k):
    for i, s in enumerate(todo):
        if i % N == k:
            try: print(" | ".join(one(s, k)), flush=True)
            except Exception as x: print(s["id"], "EXC", x, flush=True)
with cf.ThreadPoolExecutor(N) as ex: list(ex.map(chunk, range(N)))
