"""Fills the table of seeded bugs in DESIGN.md from tools/seeded.txt ("id: harnesses | remark") and the bugs' meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(V + "/tools/seeded.txt"):
    i, r = l.rstrip("\n").split(":", 1)
    got[i] = (r.split("|") + [""])[:2]
out = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    hs, rem = got.get(i, ("not run", ""))
    out.append("- **%s** (%s): %s %s.%s" % (i, m["property"], m["what_it_breaks"], ("Caught by " + ", ".join("`%s`" % h for h in hs.split())) if hs.strip() not in ("", "not run") else "Not caught", " " + rem.strip() if rem.strip() else ""))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
s = s[:a] + "<!-- seeded -->\n" + "\n".join(out) + "\n" + s[b:]
open(V + "/DESIGN.md", "w").write(s)
