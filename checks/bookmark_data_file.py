"""P43: Mac OS background item bookmark data."""

import struct

import dt
from vf import SubTest, equal, st

from dtformats import bookmark_data

PROPERTY = "P43"
TITLE = "Bookmark data: every tagged value is resolved to its stored data record"
STATEMENT = (
    "For every bookmark (signature alis or book), reading it in debug mode reports "
    "the header, the table of contents and, for every tagged value in order, its tag "
    "and the data record it refers to with the decoded value: strings, signed "
    "integers of 8 to 64 bits, floating points, arrays of offsets, Cocoa times, "
    "property flags and, for the path and identifier tags, the path and integers made "
    "of the records the array refers to. A bookmark with another signature, a size "
    "other than the file size, another data area offset, a next table of contents, "
    "or a record that does not hold the type of value its tag or array requires is "
    "rejected as a parse error.")
QUANTIFIER = (
    "every set of tagged values, placement and sharing of data records, value types "
    "and sizes")
WHY = "The tests read one bookmark and do not look at any value."
FILES = ["dtformats/bookmark_data.py", "dtformats/bookmark_data.yaml",
         "dtformats/bookmark_data.debug.yaml"]
MECHANISM = [
    ("tagged value resolution",
     "bookmark_data.MacOSBackgroundItemBookmarkData.ReadFileObject"),
    ("arrays", "bookmark_data.MacOSBackgroundItemBookmarkData._ReadStringsArray"),
]
OBSERVE = ["debug output of MacOSBackgroundItemBookmarkData.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two tagged values of different kinds"
ASSUMPTIONS = []

OTHER_TAG = st.sampled_from(
    [0x1003, 0x1040, 0x1054, 0x1055, 0x2000, 0x2002, 0x2010, 0x2011, 0x2012, 0x2013,
     0x2030, 0xc001, 0xc011, 0xd010, 0xf017, 0x80000018])
RECORD = st.one_of(
    st.tuples(st.just("string"), dt.UNICODE),
    st.tuples(st.just("int8"), dt.s(8)), st.tuples(st.just("int16"), dt.s(16)),
    st.tuples(st.just("int32"), dt.s(32)), st.tuples(st.just("int64"), dt.s(64)),
    st.tuples(st.just("float32"), st.floats(width=32, allow_nan=False,
                                            allow_infinity=False)),
    st.tuples(st.just("float64"), st.floats(-1e15, 1e15)),
    st.tuples(st.just("data"), st.binary(max_size=40)),
    st.tuples(st.just("cocoa"), st.floats(-1e11, 1e11)),
    st.tuples(st.just("boolean"), st.booleans()),
    st.tuples(st.just("uint32s"), dt.many(dt.u(32), max_size=5)),
)
INTEGER = st.one_of(
    st.tuples(st.just("int8"), dt.s(8)), st.tuples(st.just("int16"), dt.s(16)),
    st.tuples(st.just("int32"), dt.s(32)), st.tuples(st.just("int64"), dt.s(64)))
TAGGED = st.one_of(
    st.tuples(OTHER_TAG, RECORD),
    st.tuples(st.just(0x1004), st.tuples(
        st.just("array"), st.lists(st.tuples(st.just("string"), dt.UNICODE),
                                   max_size=5))),
    st.tuples(st.just(0x1005), st.tuples(
        st.just("array"), st.lists(INTEGER, max_size=5))),
    st.tuples(st.sampled_from([0x1010, 0x2020]), st.tuples(
        st.just("flags"), st.tuples(dt.u(64), dt.u(64), dt.u(64)))))
FILE = st.fixed_dictionaries(dict(
    signature=st.sampled_from([b"alis", b"book"]), unknown1=dt.u(32),
    unknown3=st.binary(min_size=32, max_size=32), entries_size=dt.u(32),
    identifier=dt.u(32), tagged=st.lists(
        st.tuples(TAGGED, dt.u(32)), min_size=0, max_size=6),
    gap=st.sampled_from([0, 4, 12]), reverse=st.booleans(), share=st.booleans()))
FORMATS = {"int8": (0x301, "<b"), "int16": (0x302, "<h"), "int32": (0x303, "<i"),
           "int64": (0x304, "<q"), "float32": (0x305, "<f"), "float64": (0x306, "<d")}


def pack(kind, value):
    """Returns (data type, data)."""
    if kind in FORMATS:
        data_type, f = FORMATS[kind]
        return data_type, struct.pack(f, value)
    if kind == "string":
        return 0x101, value.encode("utf-8")
    if kind == "data":
        return 0x201, value
    if kind == "cocoa":
        return 0x400, struct.pack(">d", value)
    if kind == "boolean":
        return 0x501 if value else 0x500, b""
    if kind == "uint32s":
        return 0x601, struct.pack(f"<{len(value):d}I", *value)
    if kind == "flags":
        return 0x201, struct.pack("<QQQ", *value)
    raise AssertionError(kind)


def record_pairs(data_type, data, kind, value):
    pairs = [("Data size", len(data)), ("Data type", dt.hex8(data_type))]
    dump = None
    if kind in ("int8", "int16", "int32", "int64"):
        pairs.append(("Integer", value))
    elif kind in ("float32", "float64"):
        pairs.append(("Floating point", f"{value:f}"))
    elif kind == "string":
        pairs.append(("String", value))
    elif kind == "uint32s":
        pairs.append(("Integers", ", ".join(str(v) for v in value)))
    else:
        dump = data
    return pairs, dump


class Area:
    """The data area: places records and returns their offsets."""

    def __init__(self, share, gap):
        self.data = bytearray(4)
        self.known = {}
        self.share = share
        self.gap = gap

    def place(self, data_type, data):
        key = (data_type, data)
        if self.share and key in self.known:
            return self.known[key]
        self.data.extend(b"\xee" * self.gap)
        position = len(self.data)
        self.data.extend(struct.pack("<II", len(data), data_type) + data)
        self.data.extend(b"\0" * (-len(self.data) % 4))
        self.known[key] = position
        return position


def build(case):
    area = Area(case["share"], case["gap"])
    entries = {}
    order = list(enumerate(case["tagged"]))
    if case["reverse"]:
        order.reverse()
    for index, ((tag, (kind, value)), unknown) in order:
        elements = []
        if kind == "array":
            for k, v in value:
                data_type, data = pack(k, v)
                elements.append((area.place(data_type, data), data_type, data, k, v))
            data_type = 0x601
            offsets = [e[0] for e in elements]
            data = struct.pack(f"<{len(offsets):d}I", *offsets)
        else:
            data_type, data = pack(kind, value)
        position = area.place(data_type, data)
        entries[index] = (tag, unknown, position, data_type, data, kind, value, elements)
    entries = [entries[i] for i in sorted(entries)]
    area.data[:4] = struct.pack("<I", len(area.data))
    toc = struct.pack(
        "<IIIII", case["entries_size"], 0xfffffffe, case["identifier"],
        case.get("next", 0), len(entries))
    for tag, unknown, position, *_ in entries:
        toc += struct.pack("<III", tag, position, unknown)
    data = bytes(area.data) + toc
    header = struct.pack(
        "<4sIII32s", case["signature"], 48 + len(data), case["unknown1"], 48,
        case["unknown3"])
    return header + data, entries, len(area.data)


def check_roundtrip(case, ctx):
    data, entries, area_size = build(case)
    path = ctx.write(data)
    kinds = {e[5] if e[5] != "array" else hex(e[0]) for e in entries}
    ctx.note(len(kinds) > 1, data, case["tagged"], labels=kinds)
    _, text = dt.read_file(bookmark_data.MacOSBackgroundItemBookmarkData, path)
    expected = [
        ("Signature", case["signature"].decode()), ("Size", len(data)),
        ("Unknown1", dt.hex8(case["unknown1"])), ("Data area offset", "0x00000030"),
        ("Data area size", area_size),
        ("Entries data size", case["entries_size"]),
        ("Unknown1", "0xfffffffe"), ("Identifier", case["identifier"]),
        ("Next TOC offset", "0x00000000"),
        ("Number of tagged values", len(entries))]
    dumps = [("Unknown3", case["unknown3"])]
    lines = []
    for tag, unknown, position, data_type, record, kind, value, elements in entries:
        lines.append(
            f"\ttag: 0x{tag:04x}, data record offset: 0x{position:08x}, "
            f"unknown1: 0x{unknown:08x}")
        expected.append(("Value tag", dt.hex4(tag)))
        if kind == "array":
            offsets = [e[0] for e in elements]
            pairs, dump = record_pairs(data_type, record, "uint32s", offsets)
        else:
            pairs, dump = record_pairs(data_type, record, kind, value)
        expected.extend(pairs)
        if dump is not None:
            dumps.append(("Data", dump))
        for _, element_type, element_data, k, v in elements:
            expected.extend(record_pairs(element_type, element_data, k, v)[0])
        if kind == "cocoa":
            expected.append(("Cocoa timestamp", f"{value:f}"))
        elif tag == 0x1004:
            expected.append(("Path", "/".join(e[4] for e in elements)))
        elif tag == 0x1005:
            expected.append(("Integers array", ", ".join(str(e[4]) for e in elements)))
        elif kind == "flags":
            expected.extend([
                ("Flags", dt.hex8(value[0])), ("Valid flags bitmask", dt.hex8(value[1])),
                ("Unknown", dt.hex8(value[2]))])
    labels = ["Value tag", "Path", "Integers array", "Cocoa timestamp", "Flags", "Data type"]
    dt.pairs_equal(text, expected, labels=labels)
    equal([line for line in text.split("\n") if line.startswith("\ttag: ")], lines,
          "table of contents")
    equal([d for d in dt.dumps(text) if d[0] in ("Unknown3", "Data")], dumps, "data")
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, kind, number = value
    case = dict(case)
    if kind == "signature":
        case["signature"] = struct.pack("<I", dt.wrong(0x6b6f6f62, 32, number, [
            0x73696c41, 0x6f6b6f62, 0, 0x626f6f6b]))
    elif kind == "next":
        case["next"] = 1 + number
    elif kind == "type":
        # The record is not what the tag requires.
        bad = [
            (0x1004, ("string", "abc")), (0x1005, ("int32", 1)),
            (0x1004, ("array", [("int32", 1)])), (0x1005, ("array", [("string", "a")])),
            (0x1004, ("data", b"1234")), (0x1010, ("string", "x" * 24)),
            (0x1010, ("data", b"x" * 23)), (0x1010, ("data", b"")),
            (0x2020, ("int64", 1)), (0x1004, ("boolean", True)),
            (0x1004, ("array", [("string", "a"), ("data", b"b")])),
        ][number % 11]
        case["tagged"] = list(case["tagged"]) + [(bad, 0)]
    data, _, area_size = build(case)
    if kind == "size":
        data = data[:4] + struct.pack(
            "<I", dt.wrong(len(data), 32, number, [
                len(data) + change for change in (1, -1, 48, -48, 1 << 24)])) + data[8:]
    elif kind == "offset":
        data = data[:12] + struct.pack(
            "<I", dt.wrong(48, 32, number, [0, 47, 49, 52, 304])) + data[16:]
    elif kind == "marker":
        data = bytearray(data)
        data[48 + area_size + 4 + number % 4] ^= 1 + number % 255
        data = bytes(data)
    elif kind == "truncated":
        data = data[:number % len(data)]
        data = data[:4] + struct.pack("<I", len(data)) + data[8:]
    path = ctx.write(data)
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(
        bookmark_data.MacOSBackgroundItemBookmarkData, path, f"{kind} {number:d}")


GENERATORS = {"bookmark_data": FILE.map(lambda case: build(case)[0])}
SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 600, 25000),
    SubTest("rejects", st.tuples(
        FILE, st.sampled_from(["signature", "size", "offset", "next", "type", "marker",
                               "truncated"]), st.integers(0, 5000)),
        check_rejected, 350, 8000),
]
