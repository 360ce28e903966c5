#!/usr/bin/env python3
"""Developer tool: plants the bugs of a specification file in a scratch copy of /repo, confirms each (compiles, passes the tests,
demonstration fails with it and passes without), and stores it under seeded/.  Usage: plant.py SPEC.py [ID...]"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/wt"
DEMO = '''#!/bin/bash
# Compiles and runs the demonstration against the headers of the current directory (cwd: the repository).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
%s
'''
ONE = '''g++ -std=c++17 -O1 -w -I src -I /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 1
timeout 120 "$t/demo"'''


def sh(cmd, cwd=None, t=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def tests():
    rc, o = sh("CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O1 -g1' -DCMAKE_CXX_FLAGS=-Wno-error "
               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DMATHUTILS_BUILD_TESTS=ON -DMATHUTILS_BUILD_BOOST_TESTS=ON -DMATHUTILS_SKIP_LONG_TESTS=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
               "-DFETCHCONTENT_SOURCE_DIR_EIGEN3=/usr/include/eigen3 -DFETCHCONTENT_SOURCE_DIR_UNITS=/opt/vp/units-shim -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest "
               "&& ninja -C %s/_build -j8 && ctest --test-dir %s/_build -j8 --timeout 300 --output-junit %s/_build/j.xml" % (W, W, W, W, W))
    x = open(W + "/_build/j.xml").read() if os.path.exists(W + "/_build/j.xml") else ""
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    sh("python3 /opt/vp/results.py /tmp/w/res.json junit:%s/_build/j.xml" % W)
    try:
        got = set(json.load(open("/tmp/w/res.json"))["passed"])
    except Exception:
        return False, o[-2000:]
    os.remove(W + "/_build/j.xml")
    miss = [n for n in names if n not in got]
    return not miss, str(miss[:5]) + o[-800:]


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    if not os.path.isdir(W):
        sh("git clone -q /repo %s" % W)
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        sh("git fetch -q origin && git checkout -q --force origin/HEAD && git reset -q --hard origin/HEAD", W)
        d = V + "/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO % b.get("script", ONE))
        for k, v in b.get("files", {}).items():
            open(d + "/" + k, "w").write(v)
        if "demo" in b:
            open(d + "/demo.cpp", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0, o0 = sh("bash %s/demo.sh" % d, W)
        for (f, old, new) in b["edits"]:
            p = W + "/src/MathUtils/" + f
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "edit matches", n, "times:", f, old[:60]); break
            open(p, "w").write(s.replace(old, new))
        else:
            rc, diff = sh("git diff", W)
            open(d + "/patch.diff", "w").write(diff)
            r1, o1 = sh("bash %s/demo.sh" % d, W)
            ok, log = tests()
            good = r0 == 0 and r1 != 0 and ok
            print(b["id"], "OK" if good else "BAD", "demo clean rc=%d planted rc=%d tests=%s" % (r0, r1, ok))
            if not good:
                print(o0[-1500:] if r0 else "", o1[-300:], "" if ok else log)
                sh("rm -rf %s" % d)
            continue
        sh("rm -rf %s" % d)
    sh("git checkout -q --force .", W)


main()
