"""P21: USN change journal records."""

import struct

import dt
from vf import SubTest, Violation, equal, st

from dtformats import errors, usn_journal

PROPERTY = "P21"
TITLE = "USN change journal: every record of every block is read, in order"
STATEMENT = (
    "For every USN change journal made of 4096-byte blocks, each holding zero or more "
    "version 2.0 records followed by zero fill, including blocks that are entirely "
    "zero and a last block that is not full, ReadRecords yields every record exactly "
    "once, in file order, with its stored size, file reference, parent file "
    "reference, sequence number, timestamp, update reason and source flags, security "
    "descriptor entry, attribute flags and name, and in debug mode reports those "
    "values except the sequence number. A record of another version, or one that ends beyond the end of the "
    "file, is a parse error.")
QUANTIFIER = (
    "every distribution of records over blocks, sizes of names and of padding, and "
    "field values")
WHY = "There is no test of the journal: no test file exists for this module."
FILES = ["dtformats/usn_journal.py", "dtformats/usn_journal.yaml",
         "dtformats/usn_journal.debug.yaml"]
MECHANISM = [
    ("block and record loop", "usn_journal.USNRecords.ReadRecords"),
    ("record layout", "usn_journal.USNRecords._ReadRecordV2"),
]
OBSERVE = ["USNRecords.ReadRecords results and debug output"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two blocks and at least two records"
ASSUMPTIONS = ["records do not cross a block boundary, as NTFS writes them"]

BLOCK = 4096
RECORD = st.fixed_dictionaries(dict(
    file_reference=dt.u(64), parent_file_reference=dt.u(64), sequence_number=dt.u(64),
    timestamp=dt.FILETIME, update_reason_flags=dt.u(32), update_source_flags=dt.u(32),
    security_descriptor_entry=dt.u(32), file_attribute_flags=dt.u(32),
    name=st.one_of(dt.UNICODE, st.integers(0, 255).map(lambda n: "n" * n)),
    extra=st.sampled_from([0, 0, 0, 8, 16])))
# Per block: records, or None for a block of zero bytes. The second value tells how
# full the block is made: the name of a filler record is sized so that exactly that
# number of bytes is left in the block.
FILE = st.tuples(
    st.lists(st.tuples(
        st.lists(RECORD, max_size=4),
        st.one_of(st.none(), st.sampled_from([0, 8, 16, 48, 56, 64, 72]))),
        min_size=1, max_size=5),
    st.sampled_from(["full", "tight", "partial"]))
FIELDS = ("file_reference", "parent_file_reference", "sequence_number", "timestamp",
          "update_reason_flags", "update_source_flags", "security_descriptor_entry",
          "file_attribute_flags")


def pack(r):
    name = r["name"].encode("utf-16-le")
    size = -(-(60 + len(name)) // 8) * 8 + r["extra"]
    data = struct.pack(
        "<IHHQQQQIIIIHH", size, 2, 0, *[r[f] for f in FIELDS], len(name), 60)
    return (data + name).ljust(size, b"\0")


def build(case):
    blocks, end = case
    data = b""
    records = []
    for index, (entries, left) in enumerate(blocks):
        block = b""
        for r in entries:
            packed = pack(r)
            if len(block) + len(packed) <= BLOCK:
                block += packed
                records.append((r, len(packed)))
        while entries and left is not None and BLOCK - len(block) - left >= 64:
            rest = BLOCK - len(block) - left
            size = min(rest, 560)
            if rest - size and rest - size < 64:
                size -= 64
            r = dict(entries[0], name="f" * ((size - 60) // 2), extra=0)
            packed = pack(r)
            if len(packed) != size:
                raise AssertionError((len(packed), size))
            block += packed
            records.append((r, size))
        last = index == len(blocks) - 1
        if not last or end == "full":
            block = block.ljust(BLOCK, b"\0")
        elif end == "partial":
            block = block.ljust((len(block) + BLOCK) // 2, b"\0")
        data += block
    return data, records


def read(path, debug):
    recorder = dt.Recorder()
    parser = usn_journal.USNRecords(debug=debug, output_writer=recorder)
    parser.Open(path)
    try:
        result = list(parser.ReadRecords())
        again = list(parser.ReadRecords()) if not debug else result
    finally:
        parser.Close()
    return result, again, recorder.text


def compare(actual, records, what):
    for index, (a, (r, size)) in enumerate(zip(actual, records)):
        expected = {f: r[f] for f in FIELDS}
        expected.update(
            size=size, name=r["name"], name_size=2 * len(r["name"].encode(
                "utf-16-le")) // 2, name_offset=60)
        got = {f: getattr(a, f, None) for f in expected}
        equal(got, expected, f"{what} record {index:d}")
    equal(len(actual), len(records), f"{what} number of records")


def check_roundtrip(case, ctx):
    data, records = build(case)
    path = ctx.write(data)
    ctx.note(len(case[0]) > 1 and len(records) > 1, data,
             [(len(r["name"]), s) for r, s in records])
    if not data:
        return
    actual, again, _ = read(path, False)
    compare(actual, records, "first read")
    compare(again, records, "second read")
    actual, _, text = read(path, True)
    compare(actual, records, "debug read")
    expected = []
    for r, size in records:
        expected.extend([
            ("Size", size), ("Major format version", 2), ("Minor format version", 0),
            ("File reference", dt.hex8(r["file_reference"])),
            ("Parent file reference", dt.hex8(r["parent_file_reference"])),
            ("Timestamp", dt.filetime(r["timestamp"])),
            ("Update reason flags", dt.hex8(r["update_reason_flags"])),
            ("Update source flags", dt.hex8(r["update_source_flags"])),
            ("Security descriptor entry", r["security_descriptor_entry"]),
            ("File attribute flags", dt.hex8(r["file_attribute_flags"])),
            ("Name size", len(r["name"].encode("utf-16-le"))), ("Name offset", 60),
            ("Name", r["name"])])
    dt.pairs_equal(text, expected)
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, kind, number = value
    data, records = build((case[0], "tight"))
    last = pack(dict(
        {f: 1 for f in FIELDS}, name="abcdefgh", extra=0))
    data = data[:len(data) // BLOCK * BLOCK]
    if kind == "version":
        major, minor = [(0, 0), (1, 0), (3, 0), (4, 0), (2, 1), (0x202, 0)][number % 6]
        if number % 3 == 0:
            both = dt.wrong(2, 32, number // 3)
            major, minor = both & 0xFFFF, both >> 16
        data += last[:4] + struct.pack("<HH", major, minor) + last[8:]
    else:
        data += last[:61 + number % (len(last) - 61)]
    path = ctx.write(data)
    ctx.note(len(data) > BLOCK, data, (kind, number), labels=[kind])
    for debug in (False, True):
        try:
            read(path, debug)
        except errors.ParseError:
            continue
        raise Violation(f"{kind} {number:d}: accepted")


GENERATORS = {"usn_journal": FILE.map(lambda case: build(case)[0])}
SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 400, 15000),
    SubTest("rejects", st.tuples(
        FILE, st.sampled_from(["version", "truncated"]), st.integers(0, 5000)),
        check_rejected, 150, 3000),
]
