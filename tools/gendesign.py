#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in, the registry and seeded/."""
import glob, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = open(os.path.join(V, "tools", "DESIGN.in")).read()
rows = ["| property | decided by | how |", "|---|---|---|"]
for p in props:
    i = p["id"]
    c = registry.CHECKS.get(i)
    rows.append("| %s %s | %s | %s |" % (i, p["title"], c["technique"] if c else "not applicable",
                c.get("how", "") if c else registry.NOT_APPLICABLE.get(i, "no check is built for it yet")))
t = t.replace("@@TABLE@@", "\n".join(rows))
t = t.replace("@@MODULES@@", "\n".join(getattr(registry, "MODULES", [])))
fx = []
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fx.append("* %s (`%s`): %s" % m.groups())
    elif l.strip() and not l.startswith("#"):
        fx.append("* " + l.strip())
t = t.replace("@@FIXES@@", "\n".join(fx))
sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    sd.append("| %s: %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["property"], m["needs"], caught.get(n, "?")))
t = t.replace("@@SEEDS@@", "\n".join(sd))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
