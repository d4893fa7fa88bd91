#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from plants.tsv."""
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = open(os.path.join(H, "DESIGN.md")).read().split("<!-- plants -->")[0]
rows = [l.rstrip("\n").split("\t") for l in open(os.path.join(H, "tools", "plants.tsv")) if l.strip()]
t = "<!-- plants -->\n| planted bug | check | result | what it breaks |\n|---|---|---|---|\n"
t += "".join(f"| {a} | {b} | {c} | {e} |\n" for a, b, c, e in rows)
open(os.path.join(H, "DESIGN.md"), "w").write(d + t)
