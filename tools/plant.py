#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: for each planted bug of DEFS.py write /verif/seeded/<id>/ and confirm it in a scratch copy of /repo:
applies, builds, stable tests pass, demo quiet without and failing with the change."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
{cc} -std={std} -O1 -w -pthread -include cstdint -include cstring {flags} -I"$PWD/include" -I"$PWD/ext" "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
"""
HEAD = """#include "colorsystem.hpp"
#include "picojson.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <thread>
#include <vector>
namespace CS = ColorSystem;
typedef CS::Tristimulus T3;
static int bad = 0;
static void near(const char *what, double got, double want, double tol)
{ if (!(std::fabs(got - want) <= tol)) { printf("%s: got %.9g, want %.9g\\n", what, got, want); bad = 1; } }
static void ok(const char *what, bool c) { if (!c) { printf("%s: wrong\\n", what); bad = 1; } }
int main()
{
"""
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("passed") or base.get("stable") or base["tests"])
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = f"{ROOT}/seeded/{b['id']}"
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        sh(["git", "-C", "/repo", "worktree", "prune"])
        sh(f"cp -a /repo {W}/r", shell=True)
        R = f"{W}/r"
        for f, old, new in b["edits"]:
            p = f"{R}/{f}"; s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), repr(old[:80])); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.sh", "w").write(DEMO_SH.replace("{flags}", b.get("flags", "")).replace("{cc}", b.get("cc", "g++")).replace("{std}", b.get("std", "c++14")))
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write(HEAD.replace("int main()", b.get("pre", "") + "\nint main()") + b["demo"].strip("\n") + "\nreturn bad;\n}\n")
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            # the suite is header-only: compile the tests of the scratch copy
            r = sh(f"mkdir -p {W}/b && cd {W}/b && for f in {R}/test/*.cpp; do g++ -std=c++14 -w -include cstdint -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS -I{R}/include -I{R}/ext -I{R}/ext/catch -I{R}/test -c $f -o $(basename $f).o & done; wait; g++ *.o -o t -pthread", shell=True)
            clean = sh(["bash", d + "/demo.sh"], cwd="/repo")
            patched = sh(["bash", d + "/demo.sh"], cwd=R)
            if os.path.exists(f"{W}/b/t"):
                sh(["python3", "/opt/vp/catch_run.py", f"{W}/b/t", f"{R}/test", f"{W}/res.txt"])
                sh(["python3", "/opt/vp/results.py", f"{W}/res.json", f"lines:{W}/res.txt"])
                passed = set(json.load(open(f"{W}/res.json"))["passed"])
                tl = "all stable tests pass" if stable <= passed else "FAIL " + str(sorted(stable - passed))
            else:
                tl = "NO TEST BINARY " + r.stdout[-600:]
            print(f"{b['id']:32s} {b['prop']} demo clean={clean.returncode} patched={patched.returncode} tests: {tl}")
            if clean.returncode: print(clean.stdout[-600:])
    shutil.rmtree(W, ignore_errors=True)
main()
