"""P11: Windows Prefetch hashes."""

import os
import subprocess
import sys

import dt
from vf import REPO, SubTest, equal, require, st

from dtformats import prefetch

PROPERTY = "P11"
TITLE = "Prefetch hashes equal those of Windows for every path"
STATEMENT = (
    "For every path the XP, Vista and 2008 Prefetch hash functions return the 32-bit value the "
    "Windows algorithm defines over the upper case UTF-16 little-endian path: XP as "
    "polynomial with multiplier 37, scrambled with 314159269 as a signed value modulo "
    "1000000007; Vista as polynomial with initial value 314159; 2008 as the Vista polynomial "
    "computed in blocks of 8 bytes, which gives the Vista value for every path length. "
    "The hash does not depend on the case of ASCII letters.")
QUANTIFIER = "every path, of every length (block remainder)"
WHY = "The tests hash one or two paths per function."
FILES = ["dtformats/prefetch.py", "scripts/prefetch_hash.py"]
MECHANISM = [("hash functions", "prefetch.CalculatePrefetchHashXP, ...Vista, ...2008")]
OBSERVE = ["returned hashes", "output of scripts/prefetch_hash.py"]
TECHNIQUE = "differential property-based testing against a reference implementation"
RULE = "a path of at least 5 characters (more than one block)"
ASSUMPTIONS = []

PATHS = st.one_of(
    dt.UNICODE, dt.ASCII, st.text(
        alphabet=st.characters(exclude_categories=("Cs",)), max_size=60),
    st.lists(dt.NAME, min_size=1, max_size=6).map(
        lambda p: "\\DEVICE\\HARDDISKVOLUME1\\" + "\\".join(p) + ".EXE"))


def polynomial(value, data):
    # Horner's rule on unbounded integers; reduced once at the end.
    for byte in data:
        value = value * 37 + byte
    return value & 0xffffffff


def reference_xp(path):
    value = polynomial(0, path.upper().encode("utf-16-le")) * 314159269
    value &= 0xffffffff
    signed = value - (1 << 32) if value & 0x80000000 else value
    return abs(signed) % 1000000007


def check_hashes(path, ctx):
    ctx.note(len(path) > 4, path, path, labels=[f"length mod 4 = {len(path) % 4:d}"])
    vista = polynomial(314159, path.upper().encode("utf-16-le"))
    equal(prefetch.CalculatePrefetchHashXP(path), reference_xp(path), "XP hash")
    equal(prefetch.CalculatePrefetchHashVista(path), vista, "Vista hash")
    equal(prefetch.CalculatePrefetchHash2008(path), vista, "2008 hash")
    swapped = "".join(
        c.swapcase() if c.isascii() else c for c in path)
    for name in ("XP", "Vista", "2008"):
        function = getattr(prefetch, f"CalculatePrefetchHash{name:s}")
        equal(function(swapped), function(path), f"{name:s} hash of other case")


def check_script(path, ctx):
    ctx.note(len(path) > 4, path, path)
    process = subprocess.run(
        [sys.executable, os.path.join(REPO, "scripts", "prefetch_hash.py"), "--", path],
        env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, check=False,
        cwd=ctx.scratch)
    equal(process.returncode, 0, "exit code")
    text = process.stdout.decode()
    vista = polynomial(314159, path.upper().encode("utf-16-le"))
    for line in (f"Windows XP\t: 0x{reference_xp(path):08x}",
                 f"Windows Vista\t: 0x{vista:08x}", f"Windows 2008\t: 0x{vista:08x}"):
        require(line in text, f"script output has no {line!r}: {text!r}")


SUBTESTS = [
    SubTest("hashes", PATHS, check_hashes, 4000, 100000),
    SubTest("script", dt.ASCII1, check_script, 16, 100, shards=4),
]
