#!/usr/bin/env python3
"""update_design.py RESULTS... : refresh the detection table in DESIGN.md"""
import re, subprocess, sys, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "..", "DESIGN.md")
t = open(p).read()
s = subprocess.run([sys.executable, os.path.join(here, "seeded_table.py")] + sys.argv[1:], capture_output=True, text=True, check=True).stdout
t = re.sub(r"(?s)<!--seeded-->.*<!--/seeded-->", lambda m: "<!--seeded-->\n" + s + "<!--/seeded-->", t)
open(p, "w").write(t)
