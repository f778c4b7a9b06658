"""Writes properties.jsonl and MANIFEST.json from the check modules.

Every check module carries the text of its property next to the machinery that
decides it, so that the two cannot drift apart.
"""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True

PYTHON = "/opt/venv/bin/python"

NOT_APPLICABLE = []


def main():
    modules = []
    for name in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if name.endswith(".py"):
            module = importlib.import_module(name[:-3])
            if hasattr(module, "PROPERTY"):
                modules.append(module)
    modules.sort(key=lambda module: module.PROPERTY)

    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for module in modules:
            assert len(module.TITLE) <= 80, module.PROPERTY
            line = {
                "id": module.PROPERTY,
                "title": module.TITLE,
                "statement": module.STATEMENT,
                "quantifier": {
                    "over": list(getattr(module, "OVER", ["inputs"])),
                    "text": module.QUANTIFIER,
                },
                "why_tests_cant": module.WHY,
                "anchors": {
                    "files": list(module.FILES),
                    "mechanism": [
                        {"name": n, "where": w} for n, w in module.MECHANISM],
                    "observe_at": list(module.OBSERVE),
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(line) + "\n")
            command = f"{PYTHON} run.py {module.__name__}"
            checks.append({
                "property": module.PROPERTY,
                "quick_cmd": f"{command} --tier quick",
                "thorough_cmd": f"{command} --tier thorough",
                "evidence_file": f"evidence/{module.PROPERTY}.json",
                "technique": module.TECHNIQUE,
                "level": getattr(module, "LEVEL", "exploration"),
                "level_note": (
                    "Generated-input search: no counterexample in the cases counted "
                    "in the evidence; absence is not proved. " +
                    getattr(module, "LEVEL_NOTE", "")).strip(),
            })

    manifest = {
        "version": 1,
        "setup_cmd": f"{PYTHON} tools/setup.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Pure Python: the checks import dtformats from /repo's working tree.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(f"{len(checks)} properties")


if __name__ == "__main__":
    main()
