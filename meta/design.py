#!/usr/bin/env python3
"""Regenerate DESIGN.md."""
import json, os, re, sys, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin"); sys.path.insert(0, V + "/meta")
from checks import CHECKS
from props import P, NA
from oracles import ORACLE, COST
def scenarios(src):
    t = open(V + "/harness/" + src, encoding="latin-1").read()
    return [(m.group(2), re.sub(r'"\s*\n?\s*"', "", m.group(3)), "thorough only" if m.group(1) and re.match(r"\s*,\s*\d+\s*,\s*\d+\s*,\s*2\s*\)", t[m.end():]) else "") for m in re.finditer(r'MC_SCENARIO(_T)?\((\w+),\s*"((?:[^"\\]|\\.|"\s*\n\s*")*)"', t)]
front = open(V + "/meta/design_front.md").read()
fx = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append("| %s | %s | %s |" % m.groups())
front = front.replace("@FIXES@", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fx))
caught = json.load(open(V + "/meta/caught.json")) if os.path.exists(V + "/meta/caught.json") else {}
sd = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d)); c = caught.get(i, {})
    sd.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), c.get("by", m["property"]), c.get("note", "")))
front = front.replace("@SEEDED@", "| planted bug | what it breaks | caught by | strengthened because of it |\n|---|---|---|---|\n" + "\n".join(sd))
mu = V + "/meta/mutation_results.md"
front = front.replace("@MUTATION@", open(mu).read() if os.path.exists(mu) else "")
out = [front]
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Specified:* %s\n" % p["statement"])
    if p["id"] in NA: out.append("*Not applicable:* %s\n" % NA[p["id"]]); continue
    c = CHECKS[p["id"]]
    out.append("*Enumerated:* %s.\n" % p["forall"])
    out.append("*Oracle:* %s\n" % ORACLE[p["id"]])
    out.append("*Beyond the tests:* %s\n" % p["why"])
    ev = V + "/evidence/%s.json" % p["id"]; st = {}; w = ""
    if p["id"] in COST: w = COST[p["id"]]
    out.append("*Technique:* %s. Harness `harness/%s`, flavour `%s`. Cost: %s.\n" % (p["tech"], c["src"][0], c.get("flavour", "asan"), w or "a few seconds"))
    out.append("*Code:* " + ", ".join("`%s`" % f for f in p["files"]) + "\n")
    out.append("| scenario | bounds |\n|---|---|")
    for s in c["src"]:
        for n, b, t in scenarios(s): out.append("| %s | %s%s |" % (n, b.replace("|", "/").replace('\\"', '"'), " (%s)" % t if t else ""))
    out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
