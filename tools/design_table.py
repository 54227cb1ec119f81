"""Prints the per-property part of DESIGN.md from harnesses.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harnesses import PROPS, NOT_APPLICABLE
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in NOT_APPLICABLE:
        out.append("Not applicable: %s.\n" % NOT_APPLICABLE[i])
        continue
    P = PROPS[i]
    out.append("Beyond the tests: %s\n" % p["why_tests_cant"])
    out.append("Bounds: %s.\n" % P["bounds"])
    if P.get("outside"):
        out.append("Outside: %s.\n" % P["outside"])
    for h in P["harnesses"]:
        out.append("- `%s`%s %s" % (h["entry"], " (thorough)" if h.get("deep") else "", h["what"]))
    out.append("")
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- properties -->"), s.index("<!-- /properties -->")
s = s[:a] + "<!-- properties -->\n" + "\n".join(out) + s[b:]
open(V + "/DESIGN.md", "w").write(s)
