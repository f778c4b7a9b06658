"""P20: CUPS IPP control files."""

import struct

import dt
from vf import SubTest, equal, require, st

from dtformats import cups_ipp, errors

PROPERTY = "P20"
TITLE = "CUPS IPP files: every attribute is reported with its decoded value"
STATEMENT = (
    "For every IPP control file, reading it in debug mode reports the header values "
    "and then every attribute of every attribute group, in file order, with its tag, "
    "name, value data and the decoded value: signed 32-bit integers and enums, "
    "booleans, RFC 2579 date and times (as stored), and strings in the character set declared by "
    "the last charset attribute of the same file. Attributes end at the "
    "end-of-attributes tag; an undefined delimiter tag, a boolean other than 0 or 1, "
    "an integer or date and time value that is malformed, a string that is invalid in "
    "its character set or a truncated file is rejected as a parse error.")
QUANTIFIER = (
    "every sequence of groups and attributes, all value tags, names and values of any "
    "length including empty, character set declarations, consecutive files read with "
    "one parser object")
WHY = (
    "The tests read one control file and one attribute and do not look at the text.")
FILES = ["dtformats/cups_ipp.py", "dtformats/cups_ipp.yaml"]
MECHANISM = [
    ("group loop", "cups_ipp.CupsIppFile._ReadAttributesGroup"),
    ("value decoding", "cups_ipp.CupsIppFile._ReadAttribute"),
    ("date and time", "cups_ipp.CupsIppFile._ReadDateTimeValue"),
]
OBSERVE = ["debug output of CupsIppFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least three attributes of at least two kinds of value"
ASSUMPTIONS = []

NAMES = {
    0x01: "operation-attributes-tag", 0x02: "job-attributes-tag",
    0x13: "no-value", 0x21: "integer", 0x22: "boolean", 0x23: "enum",
    0x30: "octetString", 0x31: "dateTime", 0x32: "resolution",
    0x33: "rangeOfInteger", 0x35: "textWithLanguage", 0x36: "nameWithLanguage",
    0x41: "textWithoutLanguage", 0x42: "nameWithoutLanguage", 0x44: "keyword",
    0x45: "uri", 0x46: "uriScheme", 0x47: "charset", 0x48: "naturalLanguage",
    0x49: "mimeMediaType"}
CHARSETS = ["ascii", "us-ascii", "utf-8", "iso-8859-1", "utf-16-le"]

DATETIME = st.tuples(
    st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23),
    st.integers(0, 59), st.integers(0, 59), st.integers(0, 9), st.sampled_from("+-"),
    st.integers(0, 13), st.integers(0, 59))
VALUE = st.one_of(
    st.tuples(st.just("integer"), st.sampled_from([0x21, 0x23]), dt.s(32)),
    st.tuples(st.just("boolean"), st.just(0x22), st.booleans()),
    st.tuples(st.just("datetime"), st.just(0x31), DATETIME),
    st.tuples(st.just("ascii"), st.sampled_from([0x44, 0x45, 0x46, 0x48, 0x49]),
              dt.ASCII),
    st.tuples(st.just("text"), st.sampled_from([0x41, 0x42]), dt.UNICODE),
    st.tuples(st.just("charset"), st.just(0x47), st.sampled_from(CHARSETS)),
    st.tuples(
        st.just("binary"),
        st.sampled_from([0x10, 0x13, 0x20, 0x24, 0x30, 0x32, 0x33, 0x35, 0x36, 0x43,
                         0x4a, 0x7f]),
        st.binary(max_size=40)),
)
ATTRIBUTE = st.tuples(st.one_of(dt.ASCII, dt.UNICODE), VALUE)
FILE = st.fixed_dictionaries(dict(
    major=st.integers(0, 127), minor=st.integers(0, 127), operation=dt.u(15),
    request=dt.u(31),
    groups=st.lists(st.tuples(
        st.sampled_from([1, 2, 4, 5]), dt.many(ATTRIBUTE, max_size=6)), max_size=4),
    trailing=st.binary(max_size=12)))


def pack_datetime(v):
    return struct.pack(
        ">HBBBBBB1sBB", *v[:7], v[7].encode(), *v[8:])


def local_string(v):
    """The date and time as stored (local time, without the UTC offset)."""
    return "{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}.{:d}".format(*v[:7])


def encode(case):
    """Returns the data and the expected values."""
    charset = "ascii"
    data = [struct.pack(
        ">bbhi", case["major"], case["minor"], case["operation"], case["request"])]
    expected = [
        ("Major format version", case["major"]),
        ("Minor format version", case["minor"]),
        ("Operation identifier", dt.hex4(case["operation"])),
        ("Request identifier", dt.hex8(case["request"]))]
    values = []
    kinds = []
    for delimiter, attributes in case["groups"]:
        data.append(bytes([delimiter]))
        for name, (kind, tag, value) in attributes:
            kinds.append(kind)
            if kind == "integer":
                value_data = struct.pack(">i", value)
                text = str(value)
            elif kind == "boolean":
                value_data = b"\1" if value else b"\0"
                text = str(value)
            elif kind == "datetime":
                value_data = pack_datetime(value)
                text = local_string(value)
            elif kind == "text":
                text = value.encode(charset, "ignore").decode(charset)
                value_data = text.encode(charset)
            elif kind == "binary":
                value_data = value
                text = None
            else:
                value_data = value.encode("ascii")
                text = value
                if kind == "charset":
                    charset = value
            encoded = name.encode("utf-8")
            data.append(struct.pack(">bh", tag, len(encoded)) + encoded)
            data.append(struct.pack(">h", len(value_data)) + value_data)
            expected.extend([
                ("Tag value", f"0x{tag:02x} ({NAMES.get(tag, 'UNKNOWN')})"),
                ("Name size", len(encoded)), ("Name", name),
                ("Value data size", len(value_data))])
            if text is not None:
                expected.append(("Value", text))
            values.append(value_data)
    data.append(b"\3")
    return b"".join(data) + case["trailing"], expected, values, kinds


def compare(text, expected, values):
    dt.pairs_equal(text, expected, labels=["Tag value", "Value", "Name"])
    equal([d for name, d in dt.dumps(text) if name == "Value data"], values,
          "value data")


def check_roundtrip(case, ctx):
    data, expected, values, kinds = encode(case)
    ctx.note(len(kinds) > 2 and len(set(kinds)) > 1, data, kinds, labels=set(kinds))
    path = ctx.write(data)
    _, text = dt.read_file(cups_ipp.CupsIppFile, path)
    compare(text, expected, values)
    dt.files_unchanged(path, data)


def check_sequence(cases, ctx):
    """One parser object, several files: no state is carried over."""
    recorder = dt.Recorder()
    parser = cups_ipp.CupsIppFile(debug=True, output_writer=recorder)
    ctx.note(len(cases) > 1, cases, len(cases))
    for case in cases:
        data, expected, values, _ = encode(case)
        path = ctx.write(data)
        recorder.parts.clear()
        parser.Open(path)
        parser.Close()
        compare(recorder.text, expected, values)


def check_rejected(value, ctx):
    case, kind, number = value
    data, _, _, _ = encode(case)
    data = data[:len(data) - len(case["trailing"]) - 1]
    attribute = lambda tag, d: struct.pack(">bh", tag, 1) + b"n" + struct.pack(
        ">h", len(d)) + d  # noqa: E731
    if kind == "delimiter":
        bad = bytes([[0, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][number % 11]])
        data += bad + b"\3"
    elif kind == "boolean":
        data += attribute(0x22, [b"", b"\2", b"\xff", b"\0\0", b"\1\1"][number % 5])
        data += b"\3"
    elif kind == "integer":
        data += attribute(
            [0x21, 0x23][number % 2], [b"", b"\1", b"\1\2", b"\1\2\3"][number // 2 % 4])
        data += b"\3"
    elif kind == "datetime":
        v = list((2020, 1, 2, 3, 4, 5, 6, "+", 1, 2))
        v[number % 6 + 1] = [0, 13, 0, 32, 99, 24, 61, 77, 61, 61, 10, 200][
            2 * (number % 6) + number // 6 % 2] if number % 6 < 2 else [
                24, 60, 61, 10][number % 6 - 2]
        d = pack_datetime(v)
        if number % 7 == 6:
            d = d[:-1 - number // 7 % 10]
        data += attribute(0x31, d) + b"\3"
    elif kind == "string":
        data += [
            attribute(0x47, b"utf-8") + attribute(0x41, b"a\xff"),
            attribute(0x47, b"utf-8") + attribute(0x42, b"\xc3"),
            attribute(0x47, b"no-such-charset") + attribute(0x41, b"a"),
            attribute(0x44, b"\x80"), attribute(0x45, b"http\xe9"),
            attribute(0x47, b"\xff"),
            struct.pack(">bh", 0x13, 1) + b"\xff" + b"\0\0"][number % 7] + b"\3"
    else:
        data += b"\3"
        data = data[:number % len(data)]
    path = ctx.write(data)
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(cups_ipp.CupsIppFile, path, f"{kind} {number:d}")


GENERATORS = {"cups_ipp": FILE.map(lambda case: encode(case)[0])}
SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 700, 30000),
    SubTest("sequence", st.lists(FILE, min_size=2, max_size=3), check_sequence,
            150, 5000),
    SubTest("rejects", st.tuples(
        FILE, st.sampled_from(["delimiter", "boolean", "integer", "datetime", "string",
                               "truncated"]), st.integers(0, 5000)),
        check_rejected, 400, 8000),
]
require, errors  # noqa: B018
