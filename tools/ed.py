#!/usr/bin/env python3
"""Maintainer helper: exact replacement in a file of /repo. ed.py FILE <<< 'OLD\n=====\nNEW' (tabs kept, one match required)"""
import sys
p = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
o, w = sys.stdin.read().split("\n=====\n")
w = w.rstrip("\n") if not o.endswith("\n") else w
s = open(p, encoding="utf-8", newline="").read()
assert s.count(o) == n, "%d matches" % s.count(o)
open(p, "w", encoding="utf-8", newline="").write(s.replace(o, w))
