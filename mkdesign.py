#!/usr/bin/env python3
"""Regenerates DESIGN.md: hand-written text below plus tables from properties.jsonl, proofs/, lib/registry.py and seeded/."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import prover, cextract as cx
from lib.registry import NATIVE, LEVEL, TRUSTED, NA

HEAD = open(HERE + "/design.head.md").read()
PER = {}
cur = None
for l in open(HERE + "/design.props.md"):
    if l.startswith("## "):
        cur = l[3:].strip()
        PER[cur] = ""
    elif cur:
        PER[cur] += l
units = [prover.Unit(p) for p in sorted(glob.glob(HERE + "/proofs/*.c"))]
out = [HEAD.rstrip() + "\n\n## Extraction transforms\n"]
out += ["- " + t for t in cx.TRANSFORMS]
out += ["\n## Trusted base\n"] + ["- " + t for t in TRUSTED]
out += ["\n## Per property\n"]
nfun = set()
for line in open(HERE + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in NA:
        out.append("Not applicable: " + NA[i] + "\n")
        continue
    out.append(PER.get(i, "").strip() + "\n")
    us = [u for u in units if i in u.props]
    if us:
        out.append("Deductive units (%d):\n" % len(us))
        for u in us:
            nfun |= set(u.covers)
            out.append("- `%s`%s: %s%s%s" % (u.name, " (thorough tier)" if u.tier != "quick" else "", ", ".join(u.covers) if u.covers else "(type-checked frame)",
                       " — bounded: " + u.bounded if u.bounded else "", " — assumes: " + "; ".join(u.notes) if u.notes else ""))
        out.append("")
    for h in NATIVE.get(i, []):
        out.append("Bounded stand-in `native/%s.c`%s, quick %d s, thorough %d s: %s.\n" % (h["harness"], " " + " ".join(h["extra"]) if h.get("extra") else "", h["quick"], h["thorough"], h["bound"]))
out.append("Functions of tg.c inside at least one discharged unit: %d.\n" % len(nfun))
out.append("## Planted bugs and what catches them\n")
caught = json.load(open(HERE + "/caught.json")) if os.path.exists(HERE + "/caught.json") else {}
out.append("| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], caught.get(n, "?")))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(units), "units,", len(nfun), "functions")
