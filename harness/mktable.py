"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (development only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {m.get('caught_by', m['property'])} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
