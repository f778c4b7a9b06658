"""P50: analyzer.py, which shows the structures of a VHDX file."""

import struct

import dt
import scripts
from vf import SubTest, Violation, equal, st

PROPERTY = "P50"
TITLE = "analyzer.py shows the structures of a VHDX file with the values stored"
STATEMENT = (
    "For every VHDX file, scripts/analyzer.py, given the vhdx.yaml definition, shows "
    "the file information (signature, creator up to its padding), both headers "
    "(signature, checksum, sequence number, identifiers, format versions, log size "
    "and offset) and both region tables with every entry, in the order and with the "
    "values stored at their places in the file, with a dump of the bytes of every "
    "structure, and exits with 0. Files without one of the signatures and truncated "
    "files are not shown as if they were complete: the tool fails.")
QUANTIFIER = (
    "every value of every member of the structures, number of region table entries, "
    "and truncation point")
WHY = (
    "The tests do not run the tool and there is no test file of the format; what is "
    "shown depends on every member of the dtFabric definition.")
FILES = ["scripts/analyzer.py", "dtformats/vhdx.yaml", "dtformats/data_format.py"]
MECHANISM = [
    ("places of the structures", "BinaryDataFormatAnalyzer.ReadFileObject"),
    ("members to shown values", "BinaryDataFormatAnalyzer._DetermineDebugInfo"),
    ("entries", "BinaryDataFormatAnalyzer._FormatSequence"),
]
OBSERVE = ["standard output and exit status of scripts/analyzer.py"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more region table entries, or a rejected file"
ASSUMPTIONS = ["the creator is UTF-16 text padded with NUL characters"]

UUID = st.uuids()
HEADER = st.fixed_dictionaries(dict(
    checksum=dt.u(32), sequence=dt.u(64), ids=st.lists(UUID, min_size=3, max_size=3),
    log_version=dt.u(16), version=dt.u(16), size=dt.u(32), offset=dt.u(64),
    fill=dt.u(8)))
REGION = st.tuples(UUID, dt.u(64), dt.u(32), st.one_of(st.integers(0, 1), dt.u(32)))
TABLE = st.fixed_dictionaries(dict(
    checksum=dt.u(32), unknown=dt.u(32), entries=dt.many(
        REGION, max_size=4, sizes=(17, 200))))
FILE = st.fixed_dictionaries(dict(
    creator=st.one_of(dt.UNICODE, st.sampled_from(
        ["", "Microsoft Windows 10.0.22000.0", "x" * 255, "x" * 256])),
    fill=dt.u(8), headers=st.lists(HEADER, min_size=2, max_size=2),
    tables=st.lists(TABLE, min_size=2, max_size=2), gap=dt.u(8),
    tail=st.sampled_from([0, 1, 4096])))
BLOCK = 64 * 1024


def build(case):
    """Returns the data and the start, end and bytes of the five structures."""
    creator = case["creator"].encode("utf-16-le").ljust(512, b"\0")
    parts = [b"vhdxfile" + creator + bytes([case["fill"]]) * 65016]
    for header in case["headers"]:
        parts.append(
            b"head" + struct.pack("<IQ", header["checksum"], header["sequence"])
            + b"".join(i.bytes_le for i in header["ids"])
            + struct.pack("<HHIQ", header["log_version"], header["version"],
                          header["size"], header["offset"])
            + bytes([header["fill"]]) * 4016)
    for table in case["tables"]:
        parts.append(
            b"regi" + struct.pack("<III", table["checksum"], len(table["entries"]),
                                  table["unknown"])
            + b"".join(entry[0].bytes_le + struct.pack("<QII", *entry[1:])
                       for entry in table["entries"]))
    data, ends = bytearray(), []
    for number, part in enumerate(parts):
        data.extend(bytes([case["gap"]]) * (number * BLOCK - len(data)))
        data.extend(part)
        ends.append(len(data))
    data.extend(bytes(case["tail"]))
    return bytes(data), parts, ends


def expected(case):
    pairs = [("Creator", case["creator"])]
    for header in case["headers"]:
        pairs += [
            ("Checksum", dt.hex8(header["checksum"])),
            ("Sequence number", header["sequence"]),
            ("File write identifier", header["ids"][0]),
            ("Data write identifier", header["ids"][1]),
            ("Log identifier", header["ids"][2]),
            ("Log format version", header["log_version"]),
            ("Format version", header["version"]), ("Log size", header["size"]),
            ("Log offset", dt.hex8(header["offset"]))]
    for table in case["tables"]:
        pairs += [("Checksum", dt.hex8(table["checksum"])),
                  ("Number of entries", len(table["entries"])),
                  ("Unknown1", table["unknown"])]
        for identifier, offset, size, flag in table["entries"]:
            pairs += [("Region type identifier", identifier),
                      ("Region data offset", dt.hex8(offset)),
                      ("Region data size", size), ("Is required flag", flag)]
    return [(label, str(value)) for label, value in pairs]


def check_shown(case, ctx):
    data, parts, _ = build(case)
    path = ctx.write(data, "disk.vhdx")
    ctx.note(max(len(t["entries"]) for t in case["tables"]) > 1, repr(case),
             case["creator"], labels=["many" if any(
                 len(t["entries"]) > 4 for t in case["tables"]) else "few"])
    result = scripts.run("analyzer", "vhdx.yaml", path)
    equal(result.status, 0, "exit status")
    equal(dt.values(result.text), expected(case), "values shown")
    equal([line for line in result.text.split("\n") if line.startswith("Entry: ")],
          [f"Entry: {number:d}" for table in case["tables"]
           for number in range(len(table["entries"]))], "entry numbers")
    dumps = dt.dumps(result.text)
    equal([value for label, value in dumps if label == "Signature"],
          [b"vhdxfile", b"head", b"head", b"regi", b"regi"], "signatures")
    for label, wanted in (("File_information data", parts[:1]),
                          ("Unknown1", [parts[0][520:], parts[1][80:], parts[2][80:]])):
        equal([value for name, value in dumps if name == label], wanted, label)
    shown = [value for name, value in dumps if name == "Header data"]
    if any(part not in shown for part in parts[1:3]):
        raise Violation("the data of a header is not shown")
    shown = [value for name, value in dumps if name == "Region_table data"]
    if any(part not in shown for part in parts[3:]):
        raise Violation("the data of a region table is not shown")
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, which, cut, number = value
    data, parts, ends = build(case)
    data = bytearray(data)
    if cut:
        start = ends[which] - len(parts[which])
        data = data[:start + number % len(parts[which])]
    else:
        size = 8 if which == 0 else 4
        data[which * BLOCK + number % size] ^= 1 << (number // size % 8)
    path = ctx.write(bytes(data), "damaged.vhdx")
    ctx.note(True, (repr(case), which, cut, number), (which, cut, number),
             labels=["truncated" if cut else "signature"])
    try:
        result = scripts.run("analyzer", "vhdx.yaml", path)
    except dt.errors.ParseError:
        return
    if result.status == 0:
        raise Violation(f"accepted: structure {which} cut {cut} {number}")


SUBTESTS = [
    SubTest("shown", FILE, check_shown, 120, 3000),
    SubTest("rejected", st.tuples(
        FILE, st.integers(0, 4), st.booleans(), st.integers(0, 1 << 20)),
        check_rejected, 120, 3000),
]
