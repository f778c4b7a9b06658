"""P42: cpio.py --hash."""

import bz2
import gzip
import hashlib
import lzma

import cpio_archive
import dt
import scripts
from vf import SubTest, equal, st

PROPERTY = "P42"
TITLE = "cpio.py lists and hashes every file of every archive in the source"
STATEMENT = (
    "For every source made of one or more concatenated CPIO archives, each in any of "
    "the five formats and starting at the next multiple of 16 bytes, optionally "
    "followed by a gzip, bzip2 or xz compressed archive that takes up the rest of the "
    "source, scripts/cpio.py --hash exits with 0 and prints, archive after archive and "
    "within an archive sorted by path, one line with the SHA-256 of the content and "
    "the path of every file entry that has data, and nothing else but a closing empty "
    "line. Data at an archive offset that is none of these is reported with its offset "
    "and ends the listing. Without --hash it prints the format and the size of the "
    "first archive.")
QUANTIFIER = (
    "every number and format of archives, entries, content sizes, compression and "
    "trailing data")
WHY = "The scripts have no tests."
FILES = ["scripts/cpio.py", "dtformats/cpio.py", "dtformats/data_range.py"]
MECHANISM = [
    ("archive loop", "scripts/cpio.py CPIOArchiveFileHasher.HashFileEntries"),
]
OBSERVE = ["standard output and exit status of scripts/cpio.py"]
TECHNIQUE = "property-based testing of the tool's output against the generated archive"
RULE = "two archives, or a compressed archive, with at least two non-empty entries"
ASSUMPTIONS = [
    "paths are unique within an archive and have no trailing NUL or line breaks"]
GENERATORS = {}


def compressed(kind, data, xz_split):
    if kind == "gzip":
        return gzip.compress(data, mtime=0)
    if kind == "bzip":
        return bz2.compress(data)
    return lzma.compress(data[:xz_split]) + lzma.compress(data[xz_split:])


MODEL = cpio_archive.models(complete=True).map(lambda m: dict(m, trailing=b"", entries=[
    dict(e, path_nuls=1) for e in {e["path"]: e for e in m["entries"]
                                   if e["path"].isprintable()}.values()]))


def expected_lines(model):
    return [
        f"{hashlib.sha256(e['data']).hexdigest():s}\t{e['path']:s}"
        for e in sorted(model["entries"], key=lambda e: e["path"]) if e["data"]]


def check_hash(value, ctx):
    models, kind, tail, trailing, split = value
    data = b""
    lines = []
    for model in models:
        archive, _, _ = cpio_archive.build(model)
        data += b"\0" * (-len(data) % 16) + archive
        lines.extend(expected_lines(model))
    if kind:
        archive, _, _ = cpio_archive.build(tail)
        data += b"\0" * (-len(data) % 16) + compressed(kind, archive, split)
        lines.extend(expected_lines(tail))
    elif models and trailing:
        data += b"\0" * (-len(data) % 16)
        lines.append(f"Unsupported file type at offset: 0x{len(data):08x}.")
        data += trailing
    ctx.note((len(models) > 1 or bool(kind)) and len(lines) > 1, data, lines[:4],
             labels=[kind or "plain"])
    path = ctx.write(data)
    result = scripts.run("cpio", "--hash", path)
    equal(result.text, "".join(f"{line:s}\n" for line in lines + [""]), "output")
    equal(result.status, 0, "exit status")
    result = scripts.run("cpio", "-d", "--hash", path)
    equal(result.status, 0, "exit status in debug mode")
    equal([line for line in result.text.split("\n") if line in set(lines)], lines,
          "output in debug mode")
    dt.files_unchanged(path, data)


def check_information(model, ctx):
    data, size, _ = cpio_archive.build(model)
    path = ctx.write(data)
    ctx.note(len(model["entries"]) > 1, data, (model["format"], size))
    result = scripts.run("cpio", path)
    equal(result.text, (
        "CPIO archive information:\n"
        f"\tFormat\t\t: {model['format']:s}\n"
        f"\tSize\t\t: {size:d} bytes\n\n"), "output")
    equal(result.status, 0, "exit status")


CASE = st.tuples(
    st.lists(MODEL, max_size=3),
    st.sampled_from([None, None, "gzip", "bzip", "xz"]), MODEL,
    st.sampled_from([b"", b"", b"\0\0\0", b"\0" * 40, b"07", b"070703" + b"0" * 200,
                     b"BX1234", b"\x1f\x8c123456", b"\xfd7zXY\0"]),
    st.integers(1, 400)).filter(lambda v: v[0] or v[1])

SUBTESTS = [
    SubTest("hash", CASE, check_hash, 150, 6000),
    SubTest("information", cpio_archive.models(complete=True), check_information, 60, 2000),
]
