"""P24: Mac OS login item alias data."""

import struct

import dt
from vf import SubTest, equal, st

from dtformats import alias_data

PROPERTY = "P24"
TITLE = "Alias data: record values and every tagged value are reported as stored"
STATEMENT = (
    "For every version 2 and version 3 alias data record, reading it in debug mode "
    "reports the header and record values (file system identifiers, creation times in "
    "seconds or 65536ths of a second rendered to milliseconds) and every tagged value "
    "in order: UTF-8 and UTF-16 strings decoded, arrays of identifiers as integers, "
    "other tags as their data, across alignment padding. A record with application "
    "information, a record size other than the file size, another format version, or "
    "one that ends within a value is rejected as a parse error.")
QUANTIFIER = (
    "every sequence of tagged values with any tag and size, odd sizes included, and "
    "every record value")
WHY = "The tests read one record of version 3 and do not look at any value."
FILES = ["dtformats/alias_data.py", "dtformats/alias_data.yaml",
         "dtformats/alias_data.debug.yaml"]
MECHANISM = [
    ("record and tagged value loop", "alias_data.MacOSLoginItemAliasData.ReadFileObject"),
    ("64-bit HFS time",
     "alias_data.MacOSLoginItemAliasData._FormatIntegerAsHFSTime64bit"),
]
OBSERVE = ["debug output of MacOSLoginItemAliasData.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two tagged values of different kinds"
ASSUMPTIONS = ["64-bit times are below 2^48: 32 bits of seconds, as HFS+ stores them"]

TAGS = st.one_of(
    st.tuples(st.sampled_from([0, 2, 6, 18, 19]), st.just("utf8"), dt.UNICODE),
    st.tuples(st.sampled_from([14, 15]), st.just("utf16"), dt.UNICODE),
    st.tuples(st.just(1), st.just("integers"), dt.many(dt.u(32), max_size=6)),
    st.tuples(st.sampled_from([3, 4, 5, 7, 9, 10, 13, 16, 17, 20, 21, 0xfffe, 0x102]),
              st.just("data"), st.binary(max_size=40)))
HFS32 = dt.POSIX32
HFS64 = st.one_of(
    st.integers(0, (1 << 48) - 1),
    st.tuples(dt.POSIX32, st.sampled_from([0, 1, 65, 66, 32768, 65535])).map(
        lambda t: t[0] * 65536 + t[1]))
V2 = st.fixed_dictionaries(dict(
    alias_type=dt.u(16), volume_name=st.binary(min_size=28, max_size=28),
    volume_time=HFS32, file_system_type=st.binary(min_size=2, max_size=2),
    disk_type=st.binary(min_size=2, max_size=2), parent=dt.u(32),
    target_name=st.binary(min_size=64, max_size=64), target=dt.u(32),
    target_time=HFS32, rest=st.binary(min_size=28, max_size=28)))
V3 = st.fixed_dictionaries(dict(
    alias_type=dt.u(16), volume_time=HFS64,
    file_system_type=st.binary(min_size=4, max_size=4), disk_type=dt.u(16),
    parent=dt.u(32), target=dt.u(32), target_time=HFS64, flags=dt.u(32),
    unknown=st.binary(min_size=14, max_size=14)))
FILE = st.tuples(st.one_of(V2, V3), st.lists(TAGS, max_size=7), st.booleans())


def build(case):
    r, tags, terminator = case
    if "flags" in r:
        version = 3
        data = struct.pack(
            ">HQ4sHIIQI14s", r["alias_type"], r["volume_time"], r["file_system_type"],
            r["disk_type"], r["parent"], r["target"], r["target_time"], r["flags"],
            r["unknown"])
    else:
        version = 2
        data = struct.pack(
            ">H28sI2s2sI64sII28s", r["alias_type"], r["volume_name"], r["volume_time"],
            r["file_system_type"], r["disk_type"], r["parent"], r["target_name"],
            r["target"], r["target_time"], r["rest"])
    for tag, kind, value in tags:
        if kind == "utf8":
            v = value.encode("utf-8")
        elif kind == "utf16":
            v = value.encode("utf-16-be")
            v = struct.pack(">H", len(v) // 2) + v
        elif kind == "integers":
            v = struct.pack(f">{len(value):d}I", *value)
        else:
            v = value
        data += struct.pack(">HH", tag, len(v)) + v + b"\0" * (len(v) % 2)
    if terminator:
        data += b"\xff\xff\0\0"
    return struct.pack(">IHH", 0, len(data) + 8, version) + data, version


def time64(v):
    if v == 0:
        return "Not set (0)"
    return (dt.date_time_string(
        v // 65536 - 2082844800, v % 65536 * 1000 // 65536, 3) + " UTC")


def check_roundtrip(case, ctx):
    data, version = build(case)
    r, tags, terminator = case
    path = ctx.write(data)
    ctx.note(len({kind for _, kind, _ in tags}) > 1, data, tags,
             labels=[f"version {version:d}"] + [kind for _, kind, _ in tags])
    _, text = dt.read_file(alias_data.MacOSLoginItemAliasData, path)
    time_string = time64 if version == 3 else dt.hfstime
    expected = [
        ("Record size", len(data)), ("Format version", version),
        ("Alias type", r["alias_type"]),
        ("Volume creation date and time", time_string(r["volume_time"]))]
    if version == 3:
        expected.append(("Disk type", r["disk_type"]))
    expected.extend([
        ("Parent file system identifier", r["parent"]),
        ("Target file system identifier", r["target"]),
        ("Target creation date and time", time_string(r["target_time"]))])
    if version == 3:
        expected.append(("Volume flags", dt.hex4(r["flags"])))
        dumps = [("File system type", r["file_system_type"]), ("Unknown1", r["unknown"])]
    else:
        dumps = [
            ("Volume name", r["volume_name"]), ("File system type", r["file_system_type"]),
            ("Disk type", r["disk_type"]), ("Target name", r["target_name"])]
    for tag, kind, value in tags:
        expected.append(("Value tag", dt.hex4(tag)))
        if kind == "utf8":
            expected.extend([
                ("Value data size", len(value.encode("utf-8"))), ("String", value)])
        elif kind == "utf16":
            size = len(value.encode("utf-16-be"))
            expected.extend([
                ("Value data size", size + 2), ("Number of characters", size // 2),
                ("String", value)])
        elif kind == "integers":
            expected.extend([
                ("Value data size", 4 * len(value)),
                ("Integers", ", ".join(str(v) for v in value))])
        else:
            expected.append(("Value data size", len(value)))
            dumps.append(("Value data", value))
    if terminator:
        expected.extend([("Value tag", "0xffff"), ("Value data size", 0)])
    dt.pairs_equal(
        text, expected, labels=["Value tag", "String", "Integers"])
    names = {name for name, _ in dumps} | {"Value data"}
    actual = [d for d in dt.dumps(text) if d[0] in names and d[1]]
    equal(actual, [d for d in dumps if d[1]], "data values")
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, kind, number = value
    data, version = build(case)
    if kind == "application":
        bad = bytearray(data)
        bad[number % 4] = 1 + number % 255
        data = bytes(bad)
    elif kind == "size":
        size = dt.wrong(len(data), 16, number, [
            (len(data) + change) % 65536 for change in (1, -1, 8, -8, 256, -150)])
        data = data[:4] + struct.pack(">H", size) + data[6:]
    elif kind == "version":
        wrong = dt.wrong(version, 16, number, [
            0, 1, 4, 5, 0x200, 0x300, 0x203, 65535])
        if wrong in (2, 3):
            wrong += 256
        data = data[:6] + struct.pack(">H", wrong) + data[8:]
    elif kind == "fixed":
        # Ends within the fixed values; the record size matches the file size.
        cut = 8 + number % (122 - 8 if version == 2 else 58 - 8)
        data = data[:4] + struct.pack(">H", cut) + data[6:cut]
    else:
        # Ends within a tagged value; the record size matches the file size.
        tag, _, v = (3, "data", b"0123456789")
        cut = 1 + number % 13
        data += (struct.pack(">HH", tag, 10) + v)[:cut]
        data = data[:4] + struct.pack(">H", len(data)) + data[6:]
    path = ctx.write(data)
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(alias_data.MacOSLoginItemAliasData, path, f"{kind} {number:d}")


GENERATORS = {"alias_data": FILE.map(lambda case: build(case)[0])}
SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 600, 25000),
    SubTest("rejects", st.tuples(
        FILE, st.sampled_from(["application", "size", "version", "fixed", "tagged"]),
        st.integers(0, 5000)), check_rejected, 250, 5000),
]
