"""P18: Windows Restore Point change.log and rp.log files."""

import struct

import dt
from vf import SubTest, equal, sequences_equal, st

from dtformats import rp_change_log
from dtformats import rp_log

PROPERTY = "P18"
TITLE = "Restore point logs: volume path, entries and log values are as stored"
STATEMENT = (
    "For every well-formed restore point change.log file, the reported volume path "
    "and entries, in order, with entry type, flags, attributes, sequence number and "
    "process name are the stored ones, and debug mode reports every sub record, with "
    "its secondary path, backup filename or short filename; for every rp.log file "
    "debug mode reports the event and restore point type and their names, sequence "
    "number, description and creation time. Other signatures, record types, format "
    "versions and records of which the two size copies differ are rejected as parse "
    "errors.")
QUANTIFIER = (
    "every number of entries and sub records of every type, path and name (any UTF-16 "
    "text), flags combination and value")
WHY = (
    "The tests open one file of each kind without looking at the entries; sub records "
    "that are short, last or of an unusual type do not occur in it.")
FILES = ["dtformats/rp_change_log.py", "dtformats/rp_change_log.yaml",
         "dtformats/rp_log.py", "dtformats/rp_log.yaml"]
MECHANISM = [
    ("entries", "rp_change_log.RestorePointChangeLogFile._ReadChangeLogEntry"),
    ("sub records", "rp_change_log.RestorePointChangeLogFile._ReadRecord"),
    ("header and volume path",
     "rp_change_log.RestorePointChangeLogFile._ReadFileHeader / _ReadVolumePath"),
    ("rp.log", "rp_log.RestorePointLogFile.ReadFileObject"),
]
OBSERVE = ["public attributes entries and volume_path", "debug output"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = (
    "a change log with at least two entries and two sub records, or an rp.log with a "
    "defined event type and a description")
ASSUMPTIONS = ["strings contain no NUL"]

TYPES = {
    1: "STREAMCHANGE", 2: "ACLCHANGE", 4: "ATTRCHANGE", 8: "STREAMOVERWRITE",
    0x10: "FILEDELETE", 0x20: "FILECREATE", 0x40: "FILERENAME", 0x80: "DIRCREATE",
    0x100: "DIRRENAME", 0x200: "DIRDELETE", 0x400: "MOUNTCREATE",
    0x800: "MOUNTDELETE", 0x1000: "VOLUMEERROR", 0x2000: "STREAMCREATE",
    0x10000: "NOOPTIMIZE", 0x20000: "ISDIR", 0x40000: "ISNOTDIR",
    0x80000: "SIMULATEDELETE", 0x100000: "INPRECREATE", 0x200000: "OPENBYID"}
FLAGS = {1: "TEMPPATH", 2: "SECONDPATH", 4: "ACLINFO", 8: "DEBUGINFO",
         0x10: "SHORTNAME"}
RECORDS = {
    0: "LogHeader", 1: "LogEntry", 2: "VolumePath", 3: "FirstPath", 4: "SecondPath",
    5: "TempPath", 6: "AclInline", 7: "AclFile", 8: "DebugInfo", 9: "ShortName"}
NAMES = {4: "Secondary path", 5: "Backup filename", 9: "Short filename"}

TEXT = st.one_of(dt.UNICODE, dt.ASCII, st.just("\\WINDOWS\\" + "x" * 200),
                 st.just("😀"), st.just("\u0100a\u0200"))
RECORD = st.one_of(
    st.tuples(st.sampled_from([4, 5, 9]), TEXT),
    st.tuples(st.sampled_from([3, 6, 7, 8, 77]),
              st.binary(max_size=20).map(lambda b: b)))
ENTRY = st.fixed_dictionaries(dict(
    entry_type=st.one_of(dt.u(32), st.sampled_from(sorted(TYPES))),
    entry_flags=st.one_of(dt.u(32), st.integers(0, 31)), attributes=dt.u(32),
    sequence=dt.u(64), unknown1=st.binary(min_size=32, max_size=32), name=TEXT,
    unknown2=dt.u(32), records=dt.many(RECORD, max_size=4)))
LOG = st.fixed_dictionaries(dict(
    volume=TEXT, entries=dt.many(ENTRY, max_size=4)))


def text(value):
    return value.encode("utf-16-le") + b"\0\0"


def header(size, record_type):
    name = RECORDS.get(record_type)
    name = f"RecordType{name}" if name else "UNKNOWN"
    return [("Record size", size), ("Record type", f"{record_type:d} ({name})")]


def build(m):
    """Returns data, pairs, flag lines and the offsets of the records."""
    path = text(m["volume"])
    volume = struct.pack("<II", 8 + len(path), 2) + path
    size = 16 + len(volume) + 4
    data = struct.pack("<IIII", size, 0, 0xABCDEF12, 2) + volume
    data += struct.pack("<I", size)
    pairs = header(size, 0) + [
        ("Signature", "0xabcdef12"), ("Format version", 2)]
    pairs += header(8 + len(path), 2)
    pairs += [("Volume path", m["volume"]), ("Copy of record size", size)]
    lines = []
    offsets = []
    for e in m["entries"]:
        name = text(e["name"])
        body = name
        sub_pairs = []
        for record_type, value in e["records"]:
            value_data = value if isinstance(value, bytes) else text(value)
            body += struct.pack("<II", 8 + len(value_data), record_type) + value_data
            sub_pairs += header(8 + len(value_data), record_type)
            if record_type in NAMES:
                sub_pairs.append((NAMES[record_type], value))
        size = 72 + len(body) + 4
        offsets.append((len(data), size))
        data += struct.pack(
            "<IIIIIIQ32sII", size, 1, 0xABCDEF12, e["entry_type"], e["entry_flags"],
            e["attributes"], e["sequence"], e["unknown1"], len(name) + 8,
            e["unknown2"]) + body + struct.pack("<I", size)
        pairs += header(size, 1)
        pairs += [
            ("Signature", "0xabcdef12"), ("Entry type", dt.hex8(e["entry_type"])),
            ("Entry flags", dt.hex8(e["entry_flags"])),
            ("File attribute flags", dt.hex8(e["attributes"])),
            ("Sequence number", e["sequence"]), ("Process name size", len(name) + 8),
            ("Unknown2", dt.hex8(e["unknown2"])), ("Process name", e["name"]),
            ("Sub record data offset", len(name)),
            ("Sub record data size", len(body) - len(name))]
        pairs += sub_pairs + [("Copy of record size", size)]
        lines += [f"\tCHANGE_LOG_ENTRYTYPES_{n}" for flag, n in TYPES.items()
                  if e["entry_type"] & flag]
        lines += [f"\tCHANGE_LOG_ENTRYFLAGS_{n}" for flag, n in FLAGS.items()
                  if e["entry_flags"] & flag]
    return data, pairs, lines, offsets


def check_change_log(m, ctx):
    data, pairs, lines, _ = build(m)
    path = ctx.write(data)
    ctx.note(
        len(m["entries"]) > 1 and sum(len(e["records"]) for e in m["entries"]) > 1,
        data, m)
    for debug in (False, True):
        parser, output = dt.read_file(
            rp_change_log.RestorePointChangeLogFile, path, debug=debug)
        equal(parser.volume_path, m["volume"], "volume path")
        sequences_equal(
            [(e.entry_type, e.entry_flags, e.file_attribute_flags, e.sequence_number,
              e.process_name) for e in parser.entries],
            [(e["entry_type"], e["entry_flags"], e["attributes"], e["sequence"],
              e["name"]) for e in m["entries"]], "entries")
    dt.pairs_equal(output, pairs, labels=list(NAMES.values()))
    sequences_equal(
        [line for line in output.split("\n") if line.startswith("\tCHANGE_LOG")],
        lines, "flag names")
    dt.files_unchanged(path, data)


def check_change_log_rejected(case, ctx):
    m, kind, number = case
    data, _, _, offsets = build(m)
    data = bytearray(data)
    base, size = ([(0, struct.unpack_from("<I", data)[0])] + offsets)[
        number % (len(offsets) + 1)]
    position, value = {
        "type": (base + 4, 2 + number % 7 if number % 3 else 1 << (1 + number // 3 % 31)),
        "signature": (base + 8, dt.wrong(0xABCDEF12, 32, number, [number])),
        "version": (12, dt.wrong(2, 32, number, [0, 1, 3, 2 + 65536])),
        "copy": (base + size - 4, dt.wrong(size, 32, number, [size + 1 + number])),
        "volume": (20, dt.wrong(2, 32, number, [3 + number % 7]))}[kind]
    data[position:position + 4] = struct.pack("<I", value)
    data = bytes(data)
    path = ctx.write(data)
    ctx.note(base > 0, data, (kind, number), labels=[kind])
    dt.rejected(rp_change_log.RestorePointChangeLogFile, path, f"{kind} {number:d}")


EVENTS = {
    100: "BEGIN_SYSTEM_CHANGE", 101: "END_SYSTEM_CHANGE",
    102: "BEGIN_NESTED_SYSTEM_CHANGE", 103: "END_NESTED_SYSTEM_CHANGE"}
POINTS = {
    0: "APPLICATION_INSTALL", 1: "APPLICATION_UNINSTALL",
    10: "DEVICE_DRIVER_INSTALL", 12: "MODIFY_SETTINGS", 13: "CANCELLED_OPERATION"}
RP = st.fixed_dictionaries(dict(
    event=st.one_of(dt.u(32), st.integers(98, 105)),
    point=st.one_of(dt.u(32), st.integers(0, 15)), sequence=dt.u(64), description=TEXT,
    unknown=st.one_of(st.binary(max_size=40), st.just(b"\0" * 444)),
    time=dt.FILETIME))


def check_rp_log(m, ctx):
    data = struct.pack("<IIQ", m["event"], m["point"], m["sequence"])
    data += text(m["description"]) + m["unknown"] + struct.pack("<Q", m["time"])
    path = ctx.write(data)
    ctx.note(m["event"] in EVENTS and m["description"], data, m)
    _, output = dt.read_file(rp_log.RestorePointLogFile, path)
    dt.pairs_equal(output, [
        ("Event type", f"0x{m['event']:08x} ({EVENTS.get(m['event'], 'UNKNOWN')})"),
        ("Restore point type",
         f"0x{m['point']:08x} ({POINTS.get(m['point'], 'UNKNOWN')})"),
        ("Sequence number", dt.hex8(m["sequence"])), ("Description", m["description"]),
        ("Creation time", dt.filetime(m["time"]))])
    equal([d for name, d in dt.dumps(output) if name == "Unknown1"], [m["unknown"]],
          "unknown data")
    dt.files_unchanged(path, data)


SUBTESTS = [
    SubTest("change_log", LOG, check_change_log, 600, 30000),
    SubTest("change_log_rejects", st.tuples(
        LOG, st.sampled_from(["type", "signature", "version", "copy", "volume"]),
        st.integers(0, 5000)), check_change_log_rejected, 300, 6000),
    SubTest("rp_log", RP, check_rp_log, 400, 10000),
]
