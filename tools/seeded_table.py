#!/usr/bin/env python3
"""Print the detection table of DESIGN.md from seeded/*/meta.json and a results file (id prop rc=...)."""
import json, os, sys, re
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.split()
        if len(p) > 2 and p[2].startswith("rc="):
            m = re.search(r"replay/(\S+?)\.json", l)
            res[p[0]] = (p[2], m.group(1).split("-", 1)[1] if m else "")
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    r = res.get(d, ("?", ""))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'caught, build ' + r[1] if r[0] == 'rc=1' else r[0]} |")
