"""Runs one check: run.py <check module> [--tier quick|thorough] [--seed N]."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

ENVIRONMENT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
}

if any(os.environ.get(key) != value for key, value in ENVIRONMENT.items()):
    os.environ.update(ENVIRONMENT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.join(HERE, "lib"))

import vf  # noqa: E402

if __name__ == "__main__":
    sys.modules["vf"] = vf
    sys.exit(vf.main(sys.argv[1:]))
