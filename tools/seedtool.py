#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeddefs.py and confirms each in scratch copies of /repo.
   seedtool.py make [id..]     write patch.diff, demo.sh, demo.cpp, meta.json (and the stand-ins a demo needs)
   seedtool.py confirm [id..]  demo passes on the clean tree, fails with the patch; the patched tree builds and passes its tests
   seedtool.py run id [props]  applies the patch to a scratch copy and runs the checks (VP_REPO) on it
No check reads any of this."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
from seeddefs import SEEDS

DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken. Run with the repository as the working directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -w -I"$PWD/include" -I"$PWD/_build/include" -I"$D/standin" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" %s || exit 2
timeout 120 "$T/demo"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(["cp", "-a", "/repo/.", t])
    sh("git checkout -q -- .", cwd=t)
    return t


def make(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(SEEDED, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = copy()
        for f, old, new in s["edits"]:
            p = os.path.join(t, f)
            x = open(p).read()
            n = 1
            if isinstance(old, tuple):
                old, n = old
            assert x.count(old) == n, (s["id"], f, x.count(old))
            open(p, "w").write(x.replace(old, new))
        diff = sh("git diff", cwd=t).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if s.get("py"):
            open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken. Run with the repository as the working directory.
D=$(cd "$(dirname "$0")" && pwd)
timeout 120 python3-vt -B "$D/demo.py"
""")
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            continue
        libs = s.get("libs", "-lboost_serialization -ltbb -lpthread")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % libs)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        if s.get("standin", True):
            shutil.copytree(os.path.join(VERIF, "harness", "standin"), os.path.join(d, "standin"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(t)


def confirm(ids):
    import concurrent.futures as cf

    def one(s):
        d = os.path.join(SEEDED, s["id"])
        t = copy()
        r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=t)
        r2 = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
        # the repository's own build and tests, in the scratch copy
        c = os.path.join(t, "_vpc")
        sh(["cp", "-r", "/opt/vp/cmake", c])
        sh("grep -rl /repo . | xargs sed -i 's#/repo#%s#g'" % t, cwd=c)
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        sh("cmake -S %s -B %s/_vpb -G Ninja -DCMAKE_BUILD_TYPE=Debug" % (c, t), env=env)
        b = sh("ninja -C %s/_vpb headers function rng gym && for x in function rng gym; do %s/_vpb/test/$x || exit 1; done" % (t, t), env=env)
        shutil.rmtree(t)
        return s["id"], a.returncode, r1.returncode, r2.returncode, b.returncode, (r1.stdout + r2.stdout)[-600:] + (b.stdout[-600:] if b.returncode else "")
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, a, r1, r2, b, out in ex.map(one, todo):
            good = a == 0 and r1 == 0 and r2 not in (0, 2, 3) and b == 0
            print(i, "ok" if good else "BAD apply=%d clean=%d patched=%d build and tests=%d %s" % (a, r1, r2, b, out), flush=True)


def run(i, props):
    s = [s for s in SEEDS if s["id"] == i][0]
    t = copy()
    a = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=t)
    assert a.returncode == 0, a.stdout
    for p in props or [s["property"]]:
        e = dict(os.environ, VP_REPO=t)
        r = sh(["python3", os.path.join(HERE, "check.py"), p], env=e, cwd=VERIF)
        print(i, p, r.returncode, r.stdout.strip().replace("\n", " | ")[:300], flush=True)
    shutil.rmtree(t)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "make":
        make(sys.argv[2:])
    elif c == "confirm":
        confirm(sys.argv[2:])
    elif c == "run":
        run(sys.argv[2], sys.argv[3:])
    elif c == "runall":
        for s in SEEDS:
            run(s["id"], [])
