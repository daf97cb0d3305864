#!/usr/bin/env python3
"""Brings the bounds in DESIGN.md in step with vlib/props.py."""
import os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "vlib"))
from props import PROPS
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
for k, v in PROPS.items():
    assert re.search(rf"^\*\*{k} ", t, re.M), k
    t = re.sub(rf"(^\*\*{k} .*?\*Bounds:\*) .*?( \*Why tests cannot:\*)", lambda m: m.group(1) + " " + v["bounds"] + "." + m.group(2), t, flags=re.M)
open(p, "w").write(t)
