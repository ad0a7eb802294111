#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and, if given, a log of lines
'<id> <property> check=<exit status> ...' followed by what was reported. A development aid."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    last = None
    for l in open(sys.argv[1]):
        m = re.match(r"(p\d\d-\S+) (P\d\d) check=(\d)", l)
        if m:
            last = m.group(1)
            res[last] = "missed" if m.group(3) == "0" else "error" if m.group(3) != "1" else "yes"
        elif last and ": " in l and not l.startswith("VIOLATION") and res[last] == "yes":
            res[last] = "`%s`" % l.split(": ")[0]
f = V + "/DESIGN.md"
s = open(f).read()
old = dict(re.findall(r"^\| (p\d\d-\S+) \| P\d\d \| .* \| (.*?) \|$", s, re.M))
t = "| bug | property | needs | reported as |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], res.get(d, old.get(d, "")))
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(f, "w").write(s)
