#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: open findings, and the fixed ones from /repo's history (development helper)."""
import subprocess, sys
PROP = {}
out = ["# Open findings (known:) are matched by key; fixed: entries suppress nothing."]
out += open("/verif/tools/open_findings.txt").read().splitlines()
for line in open(sys.argv[1] if len(sys.argv) > 1 else "/verif/tools/fix_props.txt"):
    if line.strip():
        p, t = line.strip().split(" ", 1); PROP[t] = p
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    h, t = l.split(" ", 1)
    if t.startswith("fix: "):
        t = t[5:]
        out.append(f"fixed: property={PROP[t]} {h} {t}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
