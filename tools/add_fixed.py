"""Records a repaired defect: add_fixed.py PROPERTY COMMIT WHAT."""
import json
import os
import sys

PATH = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def main(prop, commit, what):
    try:
        with open(PATH, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        data = {"findings": []}
    data["findings"] = [
        e for e in data["findings"]
        if not (e["property"] == prop and e.get("commit") == commit)]
    data["findings"].append({
        "property": prop, "status": "fixed", "commit": commit, "what": what,
        "line": f"fixed: property={prop} {commit} {what}"})
    data["findings"].sort(key=lambda e: (e["property"], e["status"]))
    with open(PATH, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main(*sys.argv[1:])
