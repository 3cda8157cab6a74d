#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      run one check (the commands of MANIFEST.json)
   check.py --build [PROPERTY...]        only build
   check.py --replay FILE                replay a recorded violation
"""
import array, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STDEX_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

WRAPS = """read write pread pread64 pwrite pwrite64 readv writev lseek lseek64 ftruncate ftruncate64 fsync fdatasync
lockf lockf64 flock fcntl fcntl64 open open64 creat close dup fstat fstat64 stat stat64 lstat access futimens utimensat unlink send recv sendto
recvfrom shutdown malloc calloc realloc free""".split()
COMMON = ["-std=gnu++17", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def props():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(SRC, "props", "C*.cpp")))


def prop_options(prop):
    opts = {"mode": "plain", "libs": [], "cxx": []}
    with open(os.path.join(SRC, "props", prop + ".cpp"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"//\s*SIM:\s*(.*)", line)
            if m:
                for w in m.group(1).split():
                    if w in ("plain", "threads"):
                        opts["mode"] = w
                    elif w.startswith("-l") or w.startswith("-Wl,"):
                        opts["libs"].append(w)
                    else:
                        opts["cxx"].append(w)
    return opts


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SRC):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def build(prop):
    """Builds the simulator of one property from REPO's current working tree; returns the program's path."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    exe = os.path.join(BUILD, "%s-%s" % (prop, th))
    lock = open(os.path.join(BUILD, ".lock-" + prop), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, prop + "-*")):
        if time.time() - os.path.getmtime(old) > 900: # not one another check is still running
            os.unlink(old)
    o = prop_options(prop)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(SRC, "sim"), "-include", os.path.join(SRC, "sim", "linux_compat.h")]
    tmp = os.path.join(BUILD, "%s.%d." % (prop, os.getpid()))
    jobs = []
    if o["mode"] == "threads":
        core_flags, san, link, srcs = [], ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], [], ["sim", "simk", "thr"]
    else:
        core_flags, san, link, srcs = ["-DSIM_ASAN"], ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], ["-fsanitize=address"], ["sim", "simk", "plain"]
    objs = []
    main_o = tmp + "prop.o"
    jobs.append((main_o, [CXX, "-O1"] + COMMON + san + o["cxx"] + inc + ["-c", os.path.join(SRC, "props", prop + ".cpp"), "-o", main_o]))
    objs.append(main_o)
    for s in srcs:
        ob = tmp + s + ".o"
        jobs.append((ob, [CXX, "-O2"] + COMMON + core_flags + inc + ["-c", os.path.join(SRC, "sim", s + ".cpp"), "-o", ob]))
        objs.append(ob)
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for _, c in jobs]
    bad = None
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode and not bad:
            bad = " ".join(c) + "\n" + out[-6000:]
    if not bad:
        # -Bsymbolic is not wanted: libstdc++ must use the simulator's pthread functions
        r = sh([CXX, "-o", exe + ".tmp"] + objs + link + ["-Wl,--wrap=" + w for w in WRAPS] + ["-rdynamic", "-ldl", "-lm"] + o["libs"])
        if r.returncode:
            bad = r.stdout[-6000:]
    for ob in objs:
        if os.path.exists(ob):
            os.unlink(ob)
    if bad:
        die("build of %s failed:\n%s" % (prop, bad))
    os.rename(exe + ".tmp", exe)
    return exe


def merge(files, cap=40000000):
    s = set()
    for f in files:
        if os.path.exists(f):
            a = array.array("Q")
            n = os.path.getsize(f) // 8
            with open(f, "rb") as fh:
                a.fromfile(fh, n)
            s.update(a)
            os.unlink(f)
    return len(s)


def git_head():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    except OSError:
        return ""


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+)\s+id=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def replay_once(exe, path, extra=()):
    rep = path + ".%d.out" % os.getpid()
    if os.path.exists(rep):
        os.unlink(rep)
    r = subprocess.run([exe, "--replay", path, "--report", rep] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode == 10 and os.path.exists(rep):
        j = json.load(open(rep))
        os.unlink(rep)
        return r.returncode, j, r.stderr
    return r.returncode, None, r.stderr


def history_once(exe, h, extra=()):
    """Runs the seeds of a history one after another in one process; the report of the violation it ends with."""
    rep = os.path.join(OUT, "history.%d.out" % os.getpid())
    if os.path.exists(rep):
        os.unlink(rep)
    r = subprocess.run([exe, "--first", str(h["first"]), "--stride", str(h["stride"]), "--count", str(h["count"]), "--time", "900", "--report", rep] + list(extra),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode == 10 and os.path.exists(rep):
        j = json.load(open(rep))
        os.unlink(rep)
        return j, r.stderr
    return None, r.stderr


def history_violation(prop, exe, j, first, stride, final):
    """The violation needs what earlier runs left behind in the process (the code under test keeps something in
    static storage): the replay file is then the sequence of seeds, the shortest found."""
    n = (j["seed"] - first) // stride
    tried = sorted(set(k for k in [1 << i for i in range(40)] if k < n) | {n})
    best = None
    for k in tried:
        h = {"first": j["seed"] - k * stride, "stride": stride, "count": k + 1}
        r, _ = history_once(exe, h)
        if r:
            best = (h, r)
            break
    if not best:
        die("property %s seed %d: violation '%s: %s' did not reproduce from its own decisions, nor from the runs before it" % (prop, j["seed"], j["class"], j["message"]))
    h, r = best
    h["count"] = (r["seed"] - h["first"]) // stride + 1
    # fewer runs before it
    lo, end = h["first"], r["seed"]
    step = max(1, (end - lo) // stride // 2)
    while step:
        t = {"first": h["first"] + step * stride, "stride": stride, "count": (end - h["first"]) // stride + 1 - step}
        q = history_once(exe, t)[0] if t["count"] > 0 else None
        if q and q["seed"] == end and q["class"] == r["class"]:
            h, r = t, q
            step = min(step, (end - h["first"]) // stride // 2)
        else:
            step //= 2
    again, _ = history_once(exe, h)
    if not again or again["log_hash"] != r["log_hash"] or again["seed"] != r["seed"]:
        die("property %s seed %d: violation '%s' does not replay identically" % (prop, j["seed"], j["class"]))
    r["history"] = h
    r["minimisation"] = {"runs_before": n, "runs_kept": h["count"] - 1}
    return r


def handle_violation(prop, exe, report, first, stride):
    j = json.load(open(report))
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    final = os.path.join(OUT, "replay", "%s-%d.json" % (prop, j["seed"]))
    # 1. the same decisions in a fresh process must give the same violation
    rc, again, err = replay_once(exe, report)
    if rc != 10 or not again or again["class"] != j["class"]:
        return finish_violation(prop, final, history_violation(prop, exe, j, first, stride, final))
    # 2. minimise
    small = final + ".min"
    r = subprocess.run([exe, "--shrink", report, small, "--shrink-time", "45"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    chosen = None
    info = {}
    if r.returncode == 0 and os.path.exists(small):
        a, ja, _ = replay_once(exe, small)
        b, jb, _ = replay_once(exe, small)
        if a == 10 and b == 10 and ja["log_hash"] == jb["log_hash"] and ja["class"] == jb["class"] == j["class"]:
            chosen = ja
            try:
                info = json.loads(r.stdout.strip().splitlines()[-1])
            except (ValueError, IndexError):
                info = {}
    if not chosen:
        b, jb, _ = replay_once(exe, report)
        if b != 10 or jb["log_hash"] != again["log_hash"]:
            die("property %s seed %d: violation '%s' does not replay identically" % (prop, j["seed"], j["class"]))
        chosen = again
    if os.path.exists(small):
        os.unlink(small)
    chosen["minimisation"] = info
    finish_violation(prop, final, chosen)


def finish_violation(prop, final, chosen):
    chosen["repo_head"] = git_head()
    with open(final, "w") as f:
        json.dump(chosen, f, indent=1)
    print("--- %s violated: %s: %s (scenario %s, seed %d, %d decisions)" % (prop, chosen["class"], chosen["message"], chosen["scenario"], chosen["seed"], len(chosen["choices"])))
    tr = chosen.get("trace", "").splitlines()
    for line in tr[-60:]:
        print("    " + line)
    print("VIOLATION property=%s replay=%s" % (prop, final))
    sys.stdout.flush()


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe = build(prop)
    build_s = time.time() - t0
    budget = float(os.environ.get("VERIF_TIME", "0") or 0) or (30.0 if tier == "quick" else 600.0)
    work = os.path.join(OUT, "%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    base = seed * 1000000000

    def cleanup():
        for f in glob.glob(work + "/*"):
            os.unlink(f)
        os.rmdir(work)

    # Determinism gate: the same seeds in two processes, in a different order of company.
    # (A seed that violates the property ends its process early: the search below reports it.)
    n_det = 24 if tier == "quick" else 200
    dumps = []
    for k, (first, stride, count) in enumerate([(base, 1, n_det), (base, 2, n_det // 2), (base + 1, 2, n_det // 2)]):
        d = os.path.join(work, "det%d" % k)
        p = subprocess.Popen([exe, "--first", str(first), "--stride", str(stride), "--count", str(count), "--time", "300", "--dump", d, "--report", d + ".rep"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        dumps.append((d, p))
    det = []
    det_violation = False
    for d, p in dumps:
        _, err = p.communicate()
        if p.returncode == 10:
            det_violation = True
        elif p.returncode != 0:
            cleanup()
            die("simulator of %s failed in the determinism gate (exit %d): %s" % (prop, p.returncode, err[-2000:]))
        det.append(dict(l.split() for l in open(d)) if os.path.exists(d) else {})
    det_checked = det_differ = 0
    if not det_violation:
        for k in (1, 2):
            for s, h in det[k].items():
                if det[0].get(s) != h:
                    # A run depends on those before it: the code under test keeps something in static storage.
                    # The process as a whole is still repeatable, so the search goes on.
                    det_differ += 1
                det_checked += 1
    if det_differ:
        print("note: %d of %d seeds of %s run differently depending on what ran before them in the process" % (det_differ, det_checked, prop))

    procs = []
    for w in range(JOBS):
        rep = os.path.join(work, "rep%d" % w)
        p = subprocess.Popen([exe, "--first", str(base + w), "--stride", str(JOBS), "--time", str(budget), "--report", rep,
                              "--stats", os.path.join(work, "stats%d" % w), "--hashes", os.path.join(work, "h%d" % w)],
                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "err%d" % w), "w"))
        procs.append((w, p, rep))
    found = None
    failure = None
    live = list(procs)
    while live and not found:
        for t in list(live):
            w, p, rep = t
            rc = p.poll()
            if rc is None:
                continue
            live.remove(t)
            if rc == 10 and os.path.exists(rep) and os.path.getsize(rep):
                found = (rep, base + w)
                break
            if rc != 0:
                failure = "worker %d of %s ended with %d: %s" % (w, prop, rc, open(os.path.join(work, "err%d" % w)).read()[-3000:])
        else:
            time.sleep(0.05)
    for _, p, _ in live:
        p.kill()
        p.wait()
    tot = {"runs": 0, "sim_ns": 0, "steps": 0, "switches": 0, "preemptions": 0, "choices": 0, "fault_runs": 0}
    faults, ops, scen, samples = {}, {}, {}, []
    wall = 0.0
    for w, _, _ in procs:
        sf = os.path.join(work, "stats%d" % w)
        if not os.path.exists(sf):
            continue
        j = json.load(open(sf))
        for k in tot:
            tot[k] += j[k]
        wall = max(wall, j["wall_s"])
        for k, v in j["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in j["ops"].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in j["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
        if len(samples) < 3:
            samples += j["samples"][:1]
    distinct = merge([os.path.join(work, "h%d.log" % w) for w in range(JOBS)])
    sched = merge([os.path.join(work, "h%d.sched" % w) for w in range(JOBS)])
    states = merge([os.path.join(work, "h%d.state" % w) for w in range(JOBS)])
    opts = prop_options(prop)
    violations = 1 if found else 0
    rate = tot["runs"] / wall * 3600 if wall else 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": distinct,
            "rule": "one evaluation = one simulated run of one seed; distinct = different hash over the whole event log (schedule, operations, results, faults), counted in every worker and merged; every run performs at least one operation of the code under test",
            "samples": samples or ["violation found before the first statistics were written"],
            "runs": tot["runs"], "runs_per_hour": int(rate), "seeds_per_hour": int(rate),
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "runs_with_faults": tot["fault_runs"],
            "faults_injected": dict(sorted(faults.items())),
            "operations": dict(sorted(ops.items())),
            "scenarios": dict(sorted(scen.items())),
            "distinct_schedules": sched,
            "distinct_states": states,
            "context_switches": tot["switches"], "preemptions": tot["preemptions"],
            "decisions": tot["choices"], "execution_steps": tot["steps"],
            "determinism_seeds_compared": det_checked, "determinism_seeds_differing": det_differ,
            "workers": JOBS, "search_wall_s": round(wall, 2), "build_s": round(build_s, 2),
            "components_real": "all code under " + REPO + "/include/stdex that the scenarios use, libstdc++, zlib where used",
            "components_stub": "threads, mutexes, condition variables, clocks, CPU/NUMA queries and heap (simulator)" if opts["mode"] == "threads" else "files, descriptors, sockets, allocation failures (simulator); single threaded, AddressSanitizer",
            "repo_head": git_head(),
        },
        "assumptions": ["sequentially consistent memory: one simulated thread executes at a time, weak memory reorderings are not explored",
                        "the simulated kernel follows POSIX/Linux semantics as described in DESIGN.md"],
        "violations": violations,
        "wall_s": 0,
    }
    known = load_known(prop)
    code = 0
    if found:
        handle_violation(prop, exe, found[0], found[1], JOBS)
        code = 1
    elif failure:
        cleanup()
        die(failure)
    else:
        for kid, text in known:
            r = subprocess.run([exe, "--known", kid], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode == 10:
                print("KNOWN-FINDING: property=%s %s %s" % (prop, kid, text))
            elif r.returncode == 0:
                print("note: known finding %s of %s no longer fails" % (kid, prop))
            else:
                cleanup()
                die("known finding %s of %s: exit %d %s" % (kid, prop, r.returncode, r.stderr[-1000:]))
        if tot["runs"] == 0:
            cleanup()
            die("no run completed")
        print("%s %s: held on %d runs (%d distinct, %d schedules), %d fault injections, %.1f simulated s, %.0f runs/h" % (
            prop, tier, tot["runs"], distinct, sched, sum(faults.values()), tot["sim_ns"] / 1e9, rate))
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    cleanup()
    return code


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        todo = a[1:] or props()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max(1, JOBS // 3)) as ex:
            for p, e in zip(todo, ex.map(build, todo)):
                print(p, e)
        return 0
    if a[0] == "--replay":
        j = json.load(open(a[1]))
        exe = build(j["property"])
        if "history" in j:
            r, err = history_once(exe, j["history"])
            rc = 10 if r else 0
        else:
            rc, r, err = replay_once(exe, a[1], ["--verbose"])
        sys.stdout.write(err)
        if r:
            same = r["log_hash"] == j.get("log_hash")
            print("VIOLATION property=%s replay=%s (%s: %s; %s the recorded run)" % (j["property"], a[1], r["class"], r["message"], "identical to" if same else "differs from"))
            return 1
        print("no violation (exit %d)" % rc)
        return 0 if rc == 0 else 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
