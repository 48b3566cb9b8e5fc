#!/usr/bin/env python3
"""Writes known_findings.txt: a "fixed:" line per repair in /repo (from its log), and the findings not repaired.

Usage: mkknown.py COMMIT=PROPERTY... adds lines for new commits."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "known_findings.txt")
lines = open(path).read().splitlines() if os.path.exists(path) else []
for a in sys.argv[1:]:
    commit, prop = a.split("=")
    subject = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", commit], capture_output=True, text=True, check=True).stdout.strip()
    h, s = subject.split(" ", 1)
    assert s.startswith("fix: ")
    line = "fixed: property=%s %s %s" % (prop, h, s[5:])
    if not any(" %s " % h in l for l in lines):
        lines.append(line)
open(path, "w").write("\n".join(lines) + "\n")
