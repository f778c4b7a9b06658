"""Checks that what the checks need is present; nothing has to be built."""

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))

import vf  # noqa: E402

import dtformats  # noqa: E402

print(f"hypothesis {vf.hypothesis.__version__}, dtformats {dtformats.__version__} "
      f"from {os.path.dirname(dtformats.__file__)}")
