"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (strengthened: noted in meta)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
after = {
    "skewed-extent": "after strengthening (one-parameter families of oblique shapes)",
    "growing-phasor": "after strengthening (fields inside the layer)",
    "monitor-out-of-order": "after strengthening (points independent of the further outputs)",
}
rows = []
for d in glob.glob(os.path.join(here, "seeded", "*")):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    note = after.get(n) or m.get("note")
    rows.append((m["property"], n, m["property"] + (", " + note if note else ""), m["needs"]))
rows.sort()
text = "| bug | caught by | what it needs |\n|---|---|---|\n" + "".join(f"| {n} | {c} | {w} |\n" for _, n, c, w in rows)
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
head = """## Planted bugs

In /verif/seeded; all of them leave the 437 stable tests passing and have a demonstration.

"""
s = s[:i] + head + text + "\nBugs that turned out to break nothing observable, or that tests found, were dropped.\n"
open(p, "w").write(s)
