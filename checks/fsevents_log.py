"""P15: File System Events disk log streams."""

import gzip
import struct

import dt
from vf import SubTest, equal, st

from dtformats import fseventsd

PROPERTY = "P15"
TITLE = "FSEvents logs: every record of every page is reported as stored"
STATEMENT = (
    "For every well-formed File System Events disk log stream (version 1 and 2 "
    "pages, also mixed, gzip compressed), reading it in debug mode reports the pages "
    "in order and every record of a page in order with the stored path, event "
    "identifier, flags and, in version 2 pages only, node identifier. A page with "
    "another signature or a truncated page is rejected as a parse error.")
QUANTIFIER = (
    "every number of pages and records, mix of page versions, path (any UTF-8 text "
    "and length), identifier and flags value")
WHY = (
    "The tests read two files, one per version, with a single page each; record "
    "boundaries follow path lengths and page versions.")
FILES = ["dtformats/fseventsd.py", "dtformats/fseventsd.yaml",
         "dtformats/fseventsd.debug.yaml"]
MECHANISM = [
    ("page loop", "fseventsd.FseventsFile.ReadFileObject"),
    ("record version", "fseventsd.FseventsFile._ReadDLSRecord"),
]
OBSERVE = ["debug output of FseventsFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two pages of which one has at least two records"
ASSUMPTIONS = ["pygzipf decompresses what the Python gzip module compresses"]

PATH = st.one_of(
    dt.UNICODE, st.lists(dt.NAME, max_size=6).map("/".join), st.just("x" * 1500))
RECORD = st.tuples(PATH, dt.u(64), dt.u(32), dt.u(64))
PAGE = st.fixed_dictionaries(dict(
    version=st.sampled_from([1, 2]), unknown1=st.binary(min_size=4, max_size=4),
    records=dt.many(RECORD, max_size=6, sizes=(17, 33, 70))))
MODELS = dt.many(PAGE, max_size=4, sizes=(17, 33))


def build(model):
    data, expected, unknown = b"", [], []
    for page in model:
        body = b""
        pairs = []
        for path, identifier, flags, node in page["records"]:
            body += path.encode("utf-8") + b"\0" + struct.pack("<QI", identifier, flags)
            pairs += [("Path", path), ("Event identifier", identifier),
                      ("Flags", dt.hex4(flags))]
            if page["version"] == 2:
                body += struct.pack("<Q", node)
                pairs.append(("Node identifier", node))
        signature = b"%dSLD" % page["version"]
        size = 12 + len(body)
        data += signature + page["unknown1"] + struct.pack("<I", size) + body
        expected += [("Signature", signature.decode()), ("Page size", size)] + pairs
        unknown.append(page["unknown1"])
    return data, expected, unknown


def check(model, ctx):
    data, expected, unknown = build(model)
    data = gzip.compress(data, 1, mtime=0)
    path = ctx.write(data)
    ctx.note(
        len(model) > 1 and any(len(p["records"]) > 1 for p in model), data, model,
        labels=["mixed"] if len({p["version"] for p in model}) > 1 else [])
    _, text = dt.read_file(fseventsd.FseventsFile, path)
    dt.pairs_equal(text, expected, labels=[
        "Path", "Event identifier", "Flags", "Node identifier"])
    equal([d for name, d in dt.dumps(text) if name == "Unknown1"], unknown, "unknown1")
    dt.files_unchanged(path, data)


def check_rejected(case, ctx):
    model, kind, number = case
    data, _, _ = build(model)
    if kind == "signature":
        data = bytearray(data)
        data[number % 4] ^= 1 + number % 255
        if bytes(data[:4]) in (b"1SLD", b"2SLD"):
            data[0] = 0x39
    else:
        data = data[:-(1 + number % (len(data) - 1))]
        # A cut at a page boundary is a valid stream.
        position = 0
        for page in model:
            size = len(build([page])[0])
            position += size
            if position == len(data):
                return
    data = gzip.compress(bytes(data), 1, mtime=0)
    path = ctx.write(data)
    ctx.note(len(model) > 1, data, (kind, number), labels=[kind])
    dt.rejected(fseventsd.FseventsFile, path, f"{kind} {number:d}")


SUBTESTS = [
    SubTest("roundtrip", MODELS, check, quick=600, thorough=30000),
    SubTest("rejects", st.tuples(
        st.lists(PAGE, min_size=1, max_size=3),
        st.sampled_from(["signature", "truncated"]), st.integers(0, 5000)),
        check_rejected, quick=300, thorough=6000),
]
