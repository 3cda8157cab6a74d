#!/usr/bin/env python3
"""Maintainer helper: which lines of include/stdex the simulated runs execute.
usage: coverage.py SECONDS OUTDIR [PROPERTY...]     then: coverage.py --show OUTDIR HEADER"""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C


def one(prop, secs, out):
    o = C.prop_options(prop)
    inc = ["-I" + os.path.join(C.REPO, "include"), "-I" + os.path.join(C.SRC, "sim"), "-include", os.path.join(C.SRC, "sim", "linux_compat.h")]
    if o["mode"] == "threads":
        core, san, link, srcs = [], ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], [], ["sim", "simk", "thr"]
    else:
        core, san, link, srcs = ["-DSIM_ASAN"], ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], ["-fsanitize=address"], ["sim", "simk", "plain"]
    cov = ["-fprofile-instr-generate", "-fcoverage-mapping"]
    exe = os.path.join(out, prop)
    objs = []
    for s, fl in [(os.path.join(C.SRC, "props", prop + ".cpp"), ["-O1"] + san + o["cxx"] + cov)] + [(os.path.join(C.SRC, "sim", s + ".cpp"), ["-O2"] + core) for s in srcs]:
        ob = exe + "." + os.path.basename(s) + ".o"
        r = C.sh([C.CXX] + fl + C.COMMON + inc + ["-c", s, "-o", ob])
        if r.returncode:
            return prop + ": " + r.stdout[-2000:]
        objs.append(ob)
    r = C.sh([C.CXX, "-o", exe] + objs + link + cov[:1] + ["-Wl,--wrap=" + w for w in C.WRAPS] + ["-rdynamic", "-ldl", "-lm"] + o["libs"])
    if r.returncode:
        return prop + ": " + r.stdout[-2000:]
    for ob in objs:
        os.unlink(ob)
    e = dict(os.environ, LLVM_PROFILE_FILE=exe + ".profraw")
    r = subprocess.run([exe, "--first", "5000000000", "--time", str(secs), "--report", exe + ".rep"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return "%s: exit %d %s" % (prop, r.returncode, r.stderr[-500:])
    r = C.sh(["llvm-profdata-18", "merge", "-sparse", exe + ".profraw", "-o", exe + ".profdata"])
    if r.returncode:
        return prop + ": " + r.stdout[-500:]
    with open(exe + ".lcov", "w") as f:
        subprocess.run(["llvm-cov-18", "export", "-format=lcov", "-instr-profile", exe + ".profdata", exe], stdout=f, stderr=subprocess.DEVNULL)
    for x in (exe, exe + ".profraw", exe + ".profdata"):
        os.unlink(x)
    return prop + " done"


def load(out, only=None):
    cov = {}
    for p in glob.glob(os.path.join(out, "*.lcov")):
        if only and os.path.basename(p)[:-5] not in only:
            continue
        cur = None
        for l in open(p):
            if l.startswith("SF:"):
                cur = cov.setdefault(os.path.basename(l.strip()[3:]), {}) if "/stdex/" in l else None
            elif l.startswith("DA:") and cur is not None:
                a, b = l[3:].split(",")[:2]
                cur[int(a)] = cur.get(int(a), 0) + int(b)
    return cov


if __name__ == "__main__":
    if sys.argv[1] == "--show":
        cov = load(sys.argv[2])
        if len(sys.argv) < 4:
            for h in sorted(cov):
                print("%-20s %5d of %5d lines" % (h, sum(1 for v in cov[h].values() if v), len(cov[h])))
        else:
            src = open(os.path.join(C.REPO, "include/stdex", sys.argv[3]), encoding="utf-8").read().splitlines()
            last = 0
            for n in sorted(cov[sys.argv[3]]):
                if not cov[sys.argv[3]][n]:
                    if n != last + 1:
                        print("--")
                    print(n, src[n - 1])
                    last = n
    else:
        out = sys.argv[2]
        os.makedirs(out, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda p: one(p, sys.argv[1], out), sys.argv[3:] or C.props()):
                print(r, flush=True)
