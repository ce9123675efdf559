"""Prints the per-property section of DESIGN.md from properties, manifest and the checks' bounds."""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
tech = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    print(f"### {i} {p['title']}\n")
    if i not in tech:
        print("Not claimed, see MANIFEST.json.\n")
        continue
    chk = importlib.import_module("mc.checks." + i.lower()).CHECK
    b = chk.bounds("quick")
    if isinstance(b, dict):
        b = "; ".join(f"{k}: {v}" for k, v in b.items())
    print(f"- *how*: {tech[i]['technique'][16:]}.")
    print(f"- *scope (quick)*: {b}.")
    print(f"- *assurance*: {tech[i]['level_note']}")
    print(f"- *beyond the tests*: {p['why_tests_cant']}\n")
