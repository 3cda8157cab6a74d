#!/usr/bin/env python3
"""Maintainer helper: small random changes of the covered lines of a header; lists those no property notices.
usage: mutate.py COVDIR HEADER COUNT SECONDS [--lines A-B] [--props C01,C02] [--seed N] [--max-props N]
COVDIR is what coverage.py has written. Everything happens in copies under /tmp/w/mut."""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
import coverage as V

a = argparse.ArgumentParser()
a.add_argument("cov"); a.add_argument("header"); a.add_argument("count", type=int); a.add_argument("secs", type=int)
a.add_argument("--lines"); a.add_argument("--props"); a.add_argument("--seed", type=int, default=1); a.add_argument("--max-props", type=int, default=3)
a.add_argument("--jobs", type=int, default=8)
A = a.parse_args()
random.seed(A.seed)

path = os.path.join(C.REPO, "include/stdex", A.header)
raw = open(path, newline="", encoding="utf-8").read()
eol = "\r\n" if "\r\n" in raw else "\n"
src = raw.split(eol)
hits = {}
for p in C.props():
    if A.props and p not in A.props.split(","):
        continue
    c = V.load(A.cov, [p]).get(A.header, {})
    for n, k in c.items():
        if k:
            hits.setdefault(n, []).append((k, p))
lo, hi = (map(int, A.lines.split("-")) if A.lines else (1, len(src)))


def code(l):
    s = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l)
    s = re.sub(r"'(\\.|[^'\\])'", lambda m: "'" + "_" * (len(m.group(0)) - 2) + "'", s)
    i = s.find("//")
    return s if i < 0 else s[:i] + " " * (len(s) - i)


def mutants(l):
    c = code(l)
    if not c.strip() or c.strip().startswith(("#", "*", "/", "template", "class", "using", "public", "case", "stdex_assert", "_In", "_Out", "default:", "protected")) or "stdex_assert" in c or re.search(r"\b_In_|\b_Out_|\b_Inout_", c):
        return []
    r = []

    def sub(rx, f):
        for m in re.finditer(rx, c):
            t = f(m)
            if t is not None:
                r.append(l[:m.start()] + t + l[m.end():])
    sub(r"<=(?!>)", lambda m: "<"); sub(r">=", lambda m: ">")
    sub(r"(?<= )<(?= )", lambda m: "<="); sub(r"(?<= )>(?= )", lambda m: ">=")
    sub(r"==", lambda m: "!="); sub(r"!=", lambda m: "==")
    sub(r"&&", lambda m: "||" if "&&" in c and not re.search(r"\w&&|&&\w", c) else None); sub(r"\|\|", lambda m: "&&")
    sub(r"(?<=[\w\])]) \+ (?=[\w(])", lambda m: " - "); sub(r"(?<=[\w\])]) - (?=[\w(])", lambda m: " + ")
    sub(r" \+ 1\b", lambda m: ""); sub(r" - 1\b", lambda m: "")
    sub(r"\+\+", lambda m: "--" if 0 else None)
    sub(r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1) if len(m.group(1)) < 6 else None)
    sub(r"(?<=[(\s&|])!(?=[\w(])", lambda m: "")
    sub(r"\btrue\b", lambda m: "false"); sub(r"\bfalse\b", lambda m: "true")
    sub(r"state_t::ok\b", lambda m: "state_t::fail"); sub(r"state_t::fail\b", lambda m: "state_t::ok"); sub(r"state_t::eof\b", lambda m: "state_t::fail")
    sub(r"std::min\b", lambda m: "std::max"); sub(r"std::max\b", lambda m: "std::min")
    sub(r"\+=", lambda m: "="); sub(r"notify_one\b", lambda m: "notify_all" if 0 else None)
    s = c.strip()
    if s.endswith(";") and not s.startswith(("return", "for", "using", "goto", "else", "if", "while", "throw")) and "{" not in s:
        r.append(l[:len(l) - len(l.lstrip())] + ";")
    return [x for x in r if x != l]


todo = []
for n in sorted(hits):
    if lo <= n <= hi and n <= len(src):
        for m in mutants(src[n - 1]):
            todo.append((n, m))
random.shuffle(todo)
print(len(todo), "possible changes of", len(hits), "lines", flush=True)
todo = todo[:A.count]
q = queue.Queue()
for t in todo:
    q.put(t)
tally = {"killed": 0, "survived": 0, "no build": 0}
lock = threading.Lock()
survivors = []


def work(k):
    d = "/tmp/w/mut/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/verif")
    shutil.copytree(os.path.join(C.VERIF, "src"), d + "/verif/src")
    os.makedirs(d + "/verif/tools")
    shutil.copy(os.path.join(C.VERIF, "tools/check.py"), d + "/verif/tools/check.py")
    shutil.copytree(os.path.join(C.REPO, "include"), d + "/repo/include")
    h = d + "/repo/include/stdex/" + A.header
    e = dict(os.environ, STDEX_REPO=d + "/repo", VERIF_JOBS="1")
    while True:
        try:
            n, m = q.get_nowait()
        except queue.Empty:
            break
        lines = list(src)
        lines[n - 1] = m
        with open(h, "w", newline="", encoding="utf-8") as f:
            f.write(eol.join(lines))
        res, by = "survived", []
        for _, p in sorted(hits[n], reverse=True)[:A.max_props]:
            r = subprocess.run(["python3", d + "/verif/tools/check.py", "--build", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            if r.returncode:
                res = "no build"
                break
            exe = r.stdout.strip().split()[-1]
            try:
                r = subprocess.run([exe, "--first", "1000000000", "--time", str(A.secs), "--report", d + "/rep"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=A.secs + 60)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            by.append("%s:%d" % (p, rc))
            if rc == 10:
                res = "killed"
                break
        with lock:
            tally[res] += 1
            if res == "survived":
                print("SURVIVED %s:%d [%s]\n   - %s\n   + %s" % (A.header, n, " ".join(by), src[n - 1].strip(), m.strip()), flush=True)
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(A.jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
print(tally)
