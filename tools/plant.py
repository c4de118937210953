#!/usr/bin/env python3
"""Work on planted bugs: build the directory of one from a description, confirm it, run checks on it.

  plant.py confirm ID...          apply, build, stable tests, demo fails; undo, build, demo passes
  plant.py catch ID [C01,C02]     apply, run the quick checks (default: its property's), undo
Descriptions are written by plant.make(...) from scripts outside the repository."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
SH = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
"""
CPP = SH + """g++ -std=gnu++11 -w -O0 -I/repo/sources -I/repo/external -isystem /usr/include/eigen3 -isystem /opt/vp/include \\
    "$D/demo.cpp" /repo/_build/lib/libcore.a %s -ldl -fopenmp -o "$T/demo" || exit 2
cd "$T" && ALTA_PLUGIN_PATH=/repo/_build/plugins timeout 120 ./demo > out.txt 2>&1
r=$?
tail -5 out.txt
exit $r
"""
PRE = """#include <core/common.h>
#include <core/args.h>
#include <core/params.h>
#include <core/data.h>
#include <core/vertical_segment.h>
#include <core/function.h>
#include <core/fitter.h>
#include <core/rational_function.h>
#include <core/plugins_manager.h>
#include <core/metrics.h>
#include <core/data_storage.h>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
using namespace alta;
#define CHECK(c) do { if(!(c)) { printf("FAILED %s (line %d)\\n", #c, __LINE__); fflush(stdout); _exit(1); } } while(0)
#include <unistd.h>
static bool near(double a, double b, double t) { return std::fabs(a-b) <= t*(1.0+std::fabs(a)+std::fabs(b)); }
static vec V(std::initializer_list<double> l) { vec v(l.size()); int i=0; for(double d: l) v[i++]=d; return v; }
static void put(const char* f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string cat(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static arguments A(const std::string& s) { return arguments::create_arguments(s); }
"""


def make(id, prop, edits, needs, breaks, cpp=None, sh=None, libs=""):
    """edits: list of (file, old, new)."""
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        s = open(p, encoding="utf-8", errors="surrogateescape", newline="").read()
        if s.count(old) != 1:
            subprocess.call("git -C /repo checkout -- .", shell=True)
            raise SystemExit("%s: %d matches in %s" % (id, s.count(old), f))
        open(p, "w", encoding="utf-8", errors="surrogateescape", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    subprocess.check_call("git -C /repo checkout -- .", shell=True)
    if cpp:
        open(os.path.join(d, "demo.cpp"), "w").write(PRE + cpp)
        open(os.path.join(d, "demo.sh"), "w").write(CPP % libs)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(SH + sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # lines removed must be those of the original tree
    base = subprocess.check_output("git -C /repo log --format=%h --grep=^base", shell=True, text=True).split()[-1]
    for f, old, new in edits:
        bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], text=True, errors="replace").splitlines()
        rem = set(l[1:] for l in diff.decode(errors="replace").splitlines() if l.startswith("-") and not l.startswith("---"))
        for l in bl:
            h, t = (l + " ").split(" ", 1)
            t = re.sub(r"^(\S+ +)?\d+\) ?", "", t.lstrip())
            if t in rem and not h.startswith("^") and not base.startswith(h[:7]) and t.strip() not in "{}":
                print("  %s: a changed line is not original (or equals one): %s" % (id, t))


def sh(c, **k):
    return subprocess.call(c, shell=True, **k)


def confirm(id):
    d = os.path.join(S, id)
    p = os.path.join(d, "patch.diff")
    q = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        if sh("git -C /repo apply " + p):
            return "does not apply"
        if sh("bash /opt/vp/test.sh /tmp/plant.json", **q):
            return "build or tests fail to run"
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = st - set(json.load(open("/tmp/plant.json"))["passed"])
        if miss:
            return "tests fail: %s" % sorted(miss)
        r1 = sh("cd /repo && timeout 300 bash %s/demo.sh > /tmp/plant.out 2>&1" % d)
    finally:
        sh("git -C /repo checkout -- .", **q)
    sh("bash /opt/vp/build.sh", **q)
    r0 = sh("cd /repo && timeout 300 bash %s/demo.sh > /tmp/plant0.out 2>&1" % d)
    o1 = open("/tmp/plant.out", errors="replace").read()[-200:].strip()
    if r0 or not r1:
        return "demo: %d with the patch, %d without\n%s\n%s" % (r1, r0, o1, open("/tmp/plant0.out", errors="replace").read()[-300:])
    return "ok (demo %d: %s)" % (r1, o1.splitlines()[-1] if o1 else "")


def catch(id, checks=None):
    d = os.path.join(S, id)
    checks = checks or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    out = []
    try:
        if sh("git -C /repo apply %s/patch.diff" % d):
            return "does not apply"
        for c in checks:
            r = subprocess.run(["python3", os.path.join(V, "checks", c + ".py")], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s: exit %d %s" % (c, r.returncode, v[:1]))
    finally:
        sh("git -C /repo checkout -- .", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return "; ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            print(i, confirm(i), flush=True)
    else:
        for i in sys.argv[2].split(","):
            print(i, catch(i, sys.argv[3].split(",") if len(sys.argv) > 3 else None), flush=True)
