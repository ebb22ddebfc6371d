"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("c03-int8 c03-float32 c13-swapped c01-float32 c01-int8 c05-many c12-bounded c17-min c18-round c20-byte c03-batches c04-seen "
             "c05-stale c08-fourth c11-squares c11-rounded c12-sparse c12-child c10-cap c10-cap3".split()) - {"c12-child", "c10-cap", "c10-cap3"}
MISSED |= set(open(os.path.join(R, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(R, "tools", "missed.txt")) else set()
MARK = "## Seeded bugs"
p = os.path.join(R, "DESIGN.md")
t = open(p).read()
t = t[:t.index(MARK)]
rows = []
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"] + ("*" if i in MISSED else ""), m["what_it_breaks"], m["needs"]))
t += MARK + """

Every one is reported by the quick check of its own property.  `*`: missed when it was planted (the check was then strengthened: longer
histories, wider alphabets, more variables, values at a decision's boundary), caught since.

| id | caught by | what it breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(t)
