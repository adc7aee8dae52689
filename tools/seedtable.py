"""Rewrite the table of planted bugs in DESIGN.md (between the two markers) from /verif/seeded."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs, in order to show | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |")
p = here + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
