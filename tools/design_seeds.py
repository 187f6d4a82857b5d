"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {m['property']} | `{d}` | {m['what_it_breaks']} | {m['needs']} |")
t = open(here + "/DESIGN.md").read()
head = "| Check | Planted bug | What breaks | Needs |\n|---|---|---|---|\n"
new = "<!-- seeds -->\n" + head + "\n".join(rows) + "\n<!-- /seeds -->"
t2 = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(here + "/DESIGN.md", "w").write(t2)
