"""Fills in DESIGN.md's lists of properties and seeded bugs from their sources."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE

def cell(g):
    return "%s: %s%s" % (g["name"], g["module"], " (random, %(num)d of depth %(depth)d)" % g["sim"] if g.get("sim") else " (all to the bound)")

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = []
for p in props:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    c = CHECKS.get(p["id"])
    if not c:
        out.append("Not claimed: %s\n" % NOT_APPLICABLE.get(p["id"], "no specification written yet."))
        continue
    q, t = c["quick"], c["thorough"]
    note = c["note"].replace(" Trusts TLC, the harness's independent PDF builder and strict reader, and the Go toolchain.", "")
    out.append("%s.\n" % c["technique"].rstrip("."))
    out.append("%s\n" % note.strip())
    ms = []
    for m in t.get("models", []) + q.get("models", []):
        s = "`%s.tla`: %s" % (m["module"], ", ".join(m.get("invs", []) + m.get("props", [])))
        if s not in ms:
            ms.append(s)
    out.append("* checked by TLC: " + "; ".join(ms))
    out.append("* replayed, quick: " + "; ".join(map(cell, q.get("gens", []))))
    out.append("* replayed, thorough: " + "; ".join(map(cell, t.get("gens", []))))
    for r in q.get("records", []):
        out.append("* recorded and validated: `%s.tla`" % r["module"])
    if c.get("assumptions"):
        out.append("* assumes: " + "; ".join(c["assumptions"]))
    out.append("* why tests cannot settle it: " + p["why_tests_cant"])
    out.append("")

rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
d = os.path.join(here, "seeded")
caught = json.load(open(os.path.join(here, "tools", "caught.json"))) if os.path.exists(os.path.join(here, "tools", "caught.json")) else {}
if os.path.isdir(d):
    for b in sorted(os.listdir(d), key=lambda s: (len(s), s)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (b, caught.get(b, m["property"]), m["what_it_breaks"], m["needs"]))
t = open(os.path.join(here, "tools", "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out).strip()).replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(re.sub(r"\n{3,}", "\n\n", t))
