"""Plants a bug in a scratch copy, confirms it and keeps it under seeded/.

Used as a library by throw-away scripts:

  from plant import plant
  plant("P02-x", "P02", needs, breaks, [(path, old, new), ...], demo, ["module"])
"""

import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
ENV = dict(
    os.environ, LANG="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0",
    PYTHONDONTWRITEBYTECODE="1")

DEMO_SH = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the behaviour is as it should be.
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

DEMO_HEAD = '''import os, struct, sys, tempfile, shutil, io
sys.path.insert(0, os.getcwd())


class Writer:
    def __init__(self):
        self.text = ""

    def Open(self):
        return True

    def Close(self):
        pass

    def WriteText(self, text):
        self.text += text


SCRATCH = tempfile.mkdtemp()
HERE = os.path.dirname(os.path.abspath(__file__))


def beside(name):
    with open(os.path.join(HERE, name), "rb") as f:
        return f.read()


def read(cls, data, debug=True, name="input", keep=False):
    path = os.path.join(SCRATCH, name)
    with open(path, "wb") as f:
        f.write(data)
    writer = Writer()
    parser = cls(debug=debug, output_writer=writer)
    parser.Open(path)
    if keep:
        return parser, writer
    parser.Close()
    return parser, writer.text


def rejects(cls, data, debug=False):
    from dtformats import errors
    try:
        read(cls, data, debug)
    except errors.ParseError:
        return True
    return False


def value(text, label):
    return [line.split(": ", 1)[1] for line in text.split("\\n")
            if line.startswith(label + "\\t")]


def main():
'''
DEMO_TAIL = '''

try:
    ok = main()
except Exception as exception:
    print(repr(exception))
    ok = False
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
print("ok" if ok else "broken")
sys.exit(0 if ok else 1)
'''


def _tests(copy):
    process = subprocess.run(
        [PYTHON, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-o",
         "python_files=*.py", "-x"], cwd=copy, capture_output=True, text=True,
        env=dict(ENV, PYTHONPATH=copy), check=False)
    return process.returncode == 0, process.stdout[-1500:]


def _check(identifier, copy, modules):
    caught = []
    for module in modules:
        p = subprocess.run(
            [PYTHON, os.path.join(VERIF, "run.py"), module, "--seed", "1"],
            env=dict(ENV, VERIF_REPO=copy), capture_output=True, text=True,
            check=False)
        caught.append((module, p.returncode, "VIOLATION" in p.stdout))
        if p.returncode != 1:
            print(p.stdout[-600:], p.stderr[-600:])
    results_path = os.path.join(VERIF, "tools", "seeded_results.json")
    results = {}
    if os.path.exists(results_path):
        with open(results_path, encoding="utf-8") as f:
            results = json.load(f)
    results[identifier] = ", ".join(
        module for module, _, violation in caught if violation) or "missed"
    with open(results_path, "w", encoding="utf-8") as f:
        json.dump(results, f, indent=1, sort_keys=True)
        f.write("\n")
    print(f"{identifier}: kept, {'CAUGHT' if any(c[2] for c in caught) else 'MISSED'}"
          f" {caught}")
    return True


def verify(identifier, modules):
    """Runs checks against a kept bug again."""
    copy = tempfile.mkdtemp(prefix="plant_")
    try:
        shutil.rmtree(copy)
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        subprocess.run(
            ["git", "apply", os.path.join(VERIF, "seeded", identifier, "patch.diff")],
            cwd=copy, check=True)
        return _check(identifier, copy, modules)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def plant(identifier, prop, needs, breaks, edits, demo, modules=(), files=None):
    """files: name -> bytes of other files the demonstration needs."""
    target = os.path.join(VERIF, "seeded", identifier)
    copy = tempfile.mkdtemp(prefix="plant_")
    try:
        shutil.rmtree(copy)
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        work = os.path.join(copy, ".demo")
        os.makedirs(work)
        indented = "\n".join(
            ("    " + line) if line else line for line in demo.strip("\n").split("\n"))
        with open(os.path.join(work, "demo.py"), "w", encoding="utf-8") as f:
            f.write(DEMO_HEAD + indented + DEMO_TAIL)
        with open(os.path.join(work, "demo.sh"), "w", encoding="utf-8") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(work, "demo.sh"), 0o755)
        for name, data in (files or {}).items():
            with open(os.path.join(work, name), "wb") as f:
                f.write(data)

        def demo_result():
            p = subprocess.run(
                ["bash", os.path.join(work, "demo.sh")], cwd=copy, env=ENV,
                capture_output=True, text=True, check=False, timeout=250)
            return p.returncode, (p.stdout + p.stderr)[-600:]

        before = demo_result()
        for path, old, new in edits:
            full = os.path.join(copy, path)
            with open(full, encoding="utf-8") as f:
                text = f.read()
            if text.count(old) != 1:
                print(f"{identifier}: {path}: {text.count(old)} matches of {old[:80]!r}")
                return False
            with open(full, "w", encoding="utf-8") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(
            ["git", "diff"], cwd=copy, capture_output=True, text=True, check=True).stdout
        after = demo_result()
        passed, log = _tests(copy)
        if before[0] != 0 or after[0] == 0 or not passed:
            print(f"{identifier}: REFUSED before={before} after={after} tests={passed}")
            if not passed:
                print(log)
            return False
        os.makedirs(target, exist_ok=True)
        for name in ("demo.py", "demo.sh", *(files or {})):
            shutil.copy(os.path.join(work, name), os.path.join(target, name))
        with open(os.path.join(target, "patch.diff"), "w", encoding="utf-8") as f:
            f.write(diff)
        with open(os.path.join(target, "meta.json"), "w", encoding="utf-8") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f,
                      indent=1)
            f.write("\n")
        return _check(identifier, copy, modules)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
