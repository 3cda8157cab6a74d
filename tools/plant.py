#!/usr/bin/env python3
"""Maintainer helper (no check uses it): (re)creates seeded/<id>/ from tools/plants.py and verifies it.

plant.py ID...        create and verify: applies, builds, stable tests pass, demo ok/fails, check catches it
plant.py --all        verify everything again
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
from plants import PLANTS

DEMO_SH = """#!/bin/bash
# Exit 0: the behaviour is right.  Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cxx=clang++-18; command -v $cxx >/dev/null || cxx=clang++; command -v $cxx >/dev/null || cxx=g++
$cxx -std=gnu++17 -O1 -w -DNDEBUG -include "$d/linux_compat.h" -I include "$d/demo.cpp" -o "$t/demo" -pthread -lz %s || exit 3
cd "$t" && timeout 100 ./demo
r=$?
echo "demo: exit $r"
exit $r
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def create(pid):
    p = PLANTS[pid]
    d = os.path.join(V, "seeded", pid)
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("git -C %s archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (REPO, wt, wt))
        for f, old, new in p["edits"]:
            path = os.path.join(wt, f)
            with open(path, encoding="utf-8", newline="") as fh:
                s = fh.read()
            assert s.count(old) == 1, "%s: %d matches of %r" % (pid, s.count(old), old)
            with open(path, "w", encoding="utf-8", newline="") as fh:
                fh.write(s.replace(old, new))
        diff = sh("git -C %s diff" % wt).stdout
    finally:
        shutil.rmtree(wt)
    with open(os.path.join(d, "patch.diff"), "w", encoding="utf-8") as fh:
        fh.write(diff)
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write(DEMO_SH % p.get("libs", ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    src = os.path.join(V, "src", "sim", "linux_compat.h")
    with open(src) as fh:
        s = fh.read()
    s = s.replace('extern "C" int numa_node_of_cpu(int cpu); // the simulator provides the stub', "static inline int numa_node_of_cpu(int) { return 0; }")
    with open(os.path.join(d, "linux_compat.h"), "w") as fh:
        fh.write(s)
    with open(os.path.join(d, "demo.cpp"), "w") as fh:
        fh.write(p["demo"].lstrip())
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, fh, indent=1)
        fh.write("\n")


def demo(pid):
    return sh("bash %s/seeded/%s/demo.sh" % (V, pid), cwd=REPO)


def verify(pid):
    p = PLANTS[pid]
    d = os.path.join(V, "seeded", pid)
    ok = []
    if sh("git -C %s status --porcelain" % REPO).stdout.strip():
        sys.exit("/repo is not clean")
    r = demo(pid)
    ok.append(("demo passes unchanged", r.returncode == 0, r.stdout[-1500:]))
    try:
        r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
        ok.append(("applies", r.returncode == 0, r.stdout[-500:]))
        r = sh("bash /opt/vp/build.sh")
        ok.append(("builds", r.returncode == 0, r.stdout[-1500:]))
        r = sh("bash /opt/vp/test.sh /tmp/plant-o.json")
        o = json.load(open("/tmp/plant-o.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in st if t not in o["passed"]]
        ok.append(("stable tests", not miss, str(miss)))
        r = demo(pid)
        ok.append(("demo fails patched", r.returncode not in (0, 3), r.stdout[-800:]))
        r = sh("VERIF_SEED=1 python3 %s/tools/check.py %s quick" % (V, p["property"]))
        ok.append(("caught by " + p["property"], r.returncode == 1 and "VIOLATION property=" + p["property"] in r.stdout, r.stdout[-600:]))
    finally:
        sh("git -C %s checkout -- ." % REPO)
    print(pid, "; ".join("%s=%s" % (a, "yes" if b else "NO") for a, b, _ in ok))
    for a, b, t in ok:
        if not b:
            print("   --", a, ":", t)
    sys.stdout.flush()
    return all(b for _, b, _ in ok)


if __name__ == "__main__":
    ids = sys.argv[1:]
    only_verify = ids == ["--all"]
    if only_verify:
        ids = sorted(PLANTS)
    bad = []
    for i in ids:
        create(i)
        if not verify(i):
            bad.append(i)
    sh("bash /opt/vp/build.sh")
    print("bad:", bad)
