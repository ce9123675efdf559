"""Replaces SEEDTABLE (stdin) by the table of planted bugs."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
print(sys.stdin.read().replace("SEEDTABLE", "\n".join(rows)), end="")
