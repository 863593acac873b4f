"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(root + "/DESIGN.md").read()
i = t.index("| planted bug | caught by ")
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
open(root + "/DESIGN.md", "w").write(t[:i] + "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows))
