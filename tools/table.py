"""Write the table of planted bugs into DESIGN.md."""
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|----|----|----|----|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    cells = [d, m["property"], m["what_it_breaks"], m["needs"]]
    rows.append("| " + " | ".join(" ".join(c.replace("|", "/").split()) for c in cells) + " |")
p = os.path.join(root, "DESIGN.md")
with open(p) as f:
    s = f.read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
with open(p, "w") as f:
    f.write(s)
