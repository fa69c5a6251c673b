#!/usr/bin/env python3
"""Author and confirm planted bugs (development tool, not used by any check).
usage: seed.py SPEC.py   SPEC defines bugs with bug(id, prop, [(file, old, new)...], needs, breaks, demo_cpp)
Each is applied in a scratch copy of /repo, built, tested, and its demo run on both trees."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
DEMO = r'''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O0 -w -fno-access-control -I"$PWD/src" -I/usr/include/eigen3 "$D/demo.cpp" "$PWD/_build/libmacposts.a" -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
def bug(id, prop, edits, needs, breaks, demo): B.append((id, prop, edits, needs, breaks, demo))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    exec(open(sys.argv[1]).read(), {"bug": bug})
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    for id, prop, edits, needs, breaks, demo in B:
        if only and id not in only: continue
        d = os.path.join(V, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        try:
            sh("bash /opt/vp/build.sh")
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); c0 = r.returncode; o0 = r.stdout[-600:]
            for f, old, new in edits:
                p = "/repo/src/" + f; s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: print(id, "BUILD FAILED", b.stdout[-1500:]); ok = False
            else:
                sh("bash /opt/vp/test.sh /tmp/seed_t.json"); t = json.load(open("/tmp/seed_t.json"))
                miss = set(base) - set(t["passed"])
                r = sh("bash %s/demo.sh" % d, cwd="/repo"); c1 = r.returncode
                ok = c0 == 0 and c1 != 0 and not miss
                print(id, "OK" if ok else "REJECTED", "demo base=%d bug=%d" % (c0, c1), "tests failing:", sorted(miss)[:3], "" if ok else (o0, r.stdout[-600:]))
        finally:
            sh("git -C /repo checkout -- .")
        if not ok: shutil.rmtree(d, ignore_errors=True)
    sh("bash /opt/vp/build.sh")
main()
