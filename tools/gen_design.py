"""Writes DESIGN.md: the fixed text below plus the bounds the checks themselves state and the seeded bugs' table."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TEXT = open(os.path.join(HERE, "tools", "design.txt")).read()
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]


def section():
    out = []
    notes = dict(re.findall(r"^@(C\d\d)\n(.*?)(?=^@|\Z)", open(os.path.join(HERE, "tools", "design_checks.txt")).read(), re.M | re.S))
    for p in props:
        m = importlib.import_module("mc." + p["id"].lower())
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append(notes.get(p["id"], "").strip() + "\n")
        out.append("Bounds, quick: %s.\n" % m.BOUNDS("quick"))
        t = m.BOUNDS("thorough")
        if t != m.BOUNDS("quick"):
            out.append("Bounds, thorough: %s.\n" % t)
        out.append("Spaces (space/build): %s.\n" % ", ".join(s["name"].replace("/", "-") + "/" + s["variant"] for s in m.spaces("quick")))
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append("Assumed: %s.\n" % a)
    return "\n".join(out)


def seeds():
    caught = dict(line.split("\t", 1) for line in open(os.path.join(HERE, "tools", "seeded_caught.tsv")).read().splitlines() if "\t" in line)
    rows = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), caught.get(i, "?")))
    return "| planted bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)


open(os.path.join(HERE, "DESIGN.md"), "w").write(TEXT.replace("@CHECKS@", section()).replace("@SEEDS@", seeds()))
