"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/also.json (checks that alarm)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {}
f = os.path.join(R, "tools", "also.json")
if os.path.exists(f):
    also = json.load(open(f))
rows = ["| bug | what breaks | needs | caught by | also |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    a = also.get(i)
    own = m["property"] if a is None or m["property"] in a else "**not caught**"
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {own} | {', '.join(x for x in a or [] if x != m['property'])} |")
p = os.path.join(R, "DESIGN.md")
t = open(p).read()
a, b = t.index("<!-- seeds -->"), t.index("<!-- end -->")
open(p, "w").write(t[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + t[b:])
