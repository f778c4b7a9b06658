"""Writes DESIGN.md."""
import glob
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import vf  # noqa: E402,F401


def main():
    with open(os.path.join(HERE, "design_head.md"), encoding="utf-8") as f:
        out = f.read().rstrip("\n") + "\n\n## Properties\n"
    with open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8") as f:
        findings = json.load(f)["findings"]
    modules = []
    for path in glob.glob(os.path.join(VERIF, "checks", "*.py")):
        name = os.path.basename(path)[:-3]
        modules.append(importlib.import_module(name))
    modules.sort(key=lambda m: m.PROPERTY)
    for m in modules:
        out += f"\n### {m.PROPERTY} {m.TITLE}\n\n"
        out += textwrap.fill(
            f"Check `checks/{m.__name__}.py`. Deciding method: {m.TECHNIQUE}. "
            f"Quantified over {m.QUANTIFIER}. Observed: {'; '.join(m.OBSERVE)}. "
            f"A case is non-trivial when: {m.RULE}. Beyond the tests: {m.WHY}",
            88) + "\n\n"
        out += "Sub tests (cases quick / thorough): " + ", ".join(
            f"{s.name} ({s.quick:d} / {s.thorough:d})" for s in m.SUBTESTS) + ".\n"
        for assumption in m.ASSUMPTIONS:
            out += f"\nAssumption: {assumption}.\n"
        fixed = [e for e in findings if e["property"] == m.PROPERTY]
        if fixed:
            out += "\nDefects:\n\n"
            for e in fixed:
                out += f"* {e['status']}: {e.get('commit', '')} {e['what']}\n"
    out += "\n## Planted bugs\n\n"
    out += ("Each was written from the text of the property and the code, confirmed with\n"
            "`tools/plant.py` (tests pass, demonstration fails only with the change).\n\n")
    results = {}
    path = os.path.join(HERE, "seeded_results.json")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            results = json.load(f)
    out += "| Bug | Property | Needs | Caught by |\n| --- | --- | --- | --- |\n"
    for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(path))
        with open(path, encoding="utf-8") as f:
            meta = json.load(f)
        out += (f"| {name} | {meta['property']} | {meta['needs']} | "
                f"{results.get(name, 'not run')} |\n")
    with open(os.path.join(VERIF, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write(out)


main()
