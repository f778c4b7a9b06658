"""P13: Apple System Log (ASL) files."""

import struct

import dt
from dt import hex8
from vf import SubTest, equal, st

from dtformats import asl

PROPERTY = "P13"
TITLE = "ASL log files: every record is reported with its fields and strings"
STATEMENT = (
    "For every well-formed Apple System Log file, reading it in debug mode reports "
    "the header and every record of the chain from the first record offset, in chain "
    "order and exactly once, with the stored identifiers, times, level, flags and "
    "with the hostname, sender, facility, message and extra fields resolved. This "
    "holds for absent, inline (up to 7 bytes) and stored strings, shared or not. "
    "A record that refers to one that was read before ends the reading. "
    "Inline strings with an invalid flag or size, record data sizes that are not "
    "aligned and files without the ASL signature are rejected as parse errors.")
QUANTIFIER = (
    "every number of records and gap between them, number of extra fields, string "
    "length and kind (absent, inline, stored, shared) and field value")
WHY = (
    "The tests read a single file and one record of it; inline string lengths, "
    "number of extra fields and record chains vary per log.")
FILES = ["dtformats/asl.py", "dtformats/asl.yaml", "dtformats/asl.debug.yaml"]
MECHANISM = [
    ("record chain", "asl.AppleSystemLogFile.ReadFileObject"),
    ("record and extra fields", "asl.AppleSystemLogFile._ReadRecord"),
    ("inline and stored strings", "asl.AppleSystemLogFile._ReadRecordString"),
]
OBSERVE = ["debug output of AppleSystemLogFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = (
    "at least two records, at least one extra field, and both an inline and a stored "
    "string")
ASSUMPTIONS = [
    "strings are valid UTF-8 without NUL, times before the year 10000, "
    "names of extra fields are distinct per record",
]

FIELDS = (
    ("message_identifier", "Message identifier", "Q", hex8),
    ("written_time", "Written time", "Q", dt.posix),
    ("written_time_nanoseconds", "Written time nanoseconds", "I", str),
    ("alert_level", "Alert level", "H", str),
    ("flags", "Flags", "H", dt.hex4),
    ("pid", "Process identifier (PID)", "I", str),
    ("uid", "User identifier (UID)", "i", str),
    ("gid", "Group identifier (GID)", "i", str),
    ("ruid", "Read user identifier (UID)", "i", str),
    ("rgid", "Read group identifier (GID)", "i", str),
    ("refpid", "Reference process identifier (PID)", "Q", str),
)

STRING = st.one_of(
    st.none(), dt.ASCII, dt.UNICODE,
    st.text(alphabet="abcé€", min_size=0, max_size=8),
    st.sampled_from(["", "a", "abcdefg", "abcdefgh", "x" * 300]))
LABEL = st.text(
    alphabet=[chr(c) for c in range(0x21, 0x7F)] + ["é"], min_size=1, max_size=40
).map(lambda t: "x-" + t)


@st.composite
def models(draw):
    field = {
        "Q": dt.u(64), "I": dt.u(32), "H": dt.u(16), "i": dt.s(32)}
    record = st.fixed_dictionaries(dict(
        unknown1=dt.u(16),
        hostname=STRING, sender=STRING, facility=STRING, message=STRING,
        force_stored=st.booleans(),
        extra=st.lists(
            st.tuples(st.one_of(st.none(), LABEL), STRING), max_size=5,
            unique_by=lambda e: e[0]),
        gap=st.integers(0, 9),
        **{name: field[code] if name != "written_time" else dt.POSIX_SECONDS
           for name, _, code, _ in FIELDS}))
    return dict(
        version=draw(dt.u(32)), creation_time=draw(dt.POSIX_SECONDS),
        cache_size=draw(dt.u(32)), unknown1=draw(st.binary(min_size=36, max_size=36)),
        share=draw(st.booleans()), tail=draw(st.sampled_from([b"", b"\0" * 7])),
        records=draw(dt.many(record, max_size=5)))


def build(model):
    """Returns the file and the expected debug values."""
    blob = bytearray(80)
    expected = []
    shared = {}
    record_offsets = []
    kinds = set()

    def store(string, force_stored):
        """Returns (string offset value, expected pairs)."""
        if string is None:
            return 0, []
        data = string.encode("utf-8")
        if len(data) <= 7 and not force_stored:
            kinds.add("inline")
            value = (8 << 60) | (len(data) << 56)
            value |= int.from_bytes(data.ljust(7, b"\0"), "big")
            return value, [
                ("Inline string flag", "0x8"), ("Inline string size", len(data)),
                ("Inline string", string)]
        kinds.add("stored")
        pairs = [("Unknown1", hex8(1)), ("String size", len(data) + 1),
                 ("String", string)]
        if model["share"] and string in shared:
            return shared[string], pairs
        position = len(blob)
        blob.extend(struct.pack(">HI", 1, len(data) + 1) + data + b"\0")
        shared[string] = position
        return position, pairs

    previous = 0
    patches = []
    for record in model["records"]:
        blob.extend(b"\xcc" * record["gap"])
        strings = [
            store(record[key], record["force_stored"])
            for key in ("hostname", "sender", "facility", "message")]
        extra = [
            (store(name, record["force_stored"]), store(value, False))
            for name, value in record["extra"]]

        position = len(blob)
        record_offsets.append(position)
        data_size = 98 + 16 * len(extra) + 8 - 6
        blob.extend(struct.pack(">HI", record["unknown1"], data_size))
        patches.append(len(blob))
        blob.extend(b"\0" * 8)
        for name, _, code, _ in FIELDS:
            blob.extend(struct.pack(">" + code, record[name]))
        for value, _ in strings:
            blob.extend(struct.pack(">Q", value))
        for name, value in extra:
            blob.extend(struct.pack(">QQ", name[0], value[0]))
        blob.extend(struct.pack(">Q", previous))
        previous = position

        pairs = [("Unknown1", hex8(record["unknown1"])), ("Data size", data_size),
                 ("Next record offset", None)]
        pairs += [(label, fmt(record[name])) for name, label, _, fmt in FIELDS]
        pairs += [
            (f"{label} string offset", hex8(value)) for label, (value, _) in zip(
                ("Hostname", "Sender", "Facility", "Message"), strings)]
        for _, more in strings:
            pairs += more
        for name, value in extra:
            pairs += [("Name string offset", hex8(name[0])),
                      ("Value string offset", hex8(value[0]))]
            pairs += name[1] + value[1]
        pairs += [("Hostname", record["hostname"]), ("Sender", record["sender"]),
                  ("Facility", record["facility"]), ("Message", record["message"])]
        for name, value in record["extra"]:
            if name is not None:
                pairs.append((name, value))
        expected.append(pairs)

    for index, patch in enumerate(patches):
        next_offset = (
            record_offsets[index + 1] if index + 1 < len(record_offsets) else 0)
        blob[patch:patch + 8] = struct.pack(">Q", next_offset)
        expected[index] = [
            (label, hex8(next_offset) if label == "Next record offset" else value)
            for label, value in expected[index]]

    first = record_offsets[0] if record_offsets else 0
    last = record_offsets[-1] if record_offsets else 0
    blob[:80] = struct.pack(
        ">12sIQQIQ36s", b"ASL DB", model["version"], first, model["creation_time"],
        model["cache_size"], last, model["unknown1"])
    header = [
        ("Signature", "ASL DB" + "\\x00" * 6), ("Format version", model["version"]),
        ("First log entry offset", hex8(first)),
        ("Creation time", dt.posix(model["creation_time"])),
        ("Cache size", model["cache_size"]), ("Last log entry offset", hex8(last))]
    pairs = header + [pair for part in expected for pair in part]
    return bytes(blob) + model["tail"], pairs, kinds, record_offsets


def check(model, ctx):
    data, expected, kinds, _ = build(model)
    path = ctx.write(data)
    ctx.note(
        len(model["records"]) > 1 and any(r["extra"] for r in model["records"])
        and len(kinds) == 2, data, model)
    _, text = dt.read_file(asl.AppleSystemLogFile, path)
    dt.pairs_equal(text, expected, labels=[
        "Inline string flag", "Inline string", "String", "Name string offset",
        "Message identifier", "Message"])
    if b"\n" not in model["unknown1"]:
        dumps = dict(dt.dumps(text))
        equal(dumps.get("Unknown1"), model["unknown1"], "header unknown1 dump")
    dt.files_unchanged(path, data)


def check_rejected(case, ctx):
    model, kind, number = case
    data, _, _, offsets = build(model)
    data = bytearray(data)
    if kind == "signature" or not offsets:
        data[number % 12] ^= 1 + number % 255
    else:
        position = offsets[number % len(offsets)]
        if kind == "flag":
            data[position + 66:position + 74] = struct.pack(
                ">Q", (9 + number % 7) << 60)
        elif kind == "size":
            data[position + 66:position + 74] = struct.pack(
                ">Q", (8 << 60) | ((8 + number % 8) << 56))
        else:
            size, = struct.unpack_from(">I", data, position + 2)
            data[position + 2:position + 6] = struct.pack(
                ">I", size - 8 + 1 + number % 7)
    path = ctx.write(bytes(data))
    ctx.note(bool(offsets), bytes(data), (kind, number), labels=[kind])
    dt.rejected(asl.AppleSystemLogFile, path, f"invalid {kind}")


def check_cycle(case, ctx):
    """The next record of a record is one that was read before."""
    model, source, target = case
    data, _, _, offsets = build(model)
    data = bytearray(data)
    source %= len(offsets)
    position = offsets[source] + 6
    data[position:position + 8] = struct.pack(">Q", offsets[target % (source + 1)])
    path = ctx.write(bytes(data))
    ctx.note(source > 0, bytes(data), (source, target))
    recorder = dt.Recorder()
    parser = asl.AppleSystemLogFile(debug=True, output_writer=recorder)
    try:
        parser.Open(path)
        parser.Close()
    except dt.errors.ParseError:
        pass
    read = [value for label, value in dt.values(recorder.text)
            if label == "Next record offset"]
    equal(len(read), source + 1, "number of records read")


SUBTESTS = [
    SubTest("cycles", st.tuples(
        models().filter(lambda model: model["records"]), st.integers(0, 4),
        st.integers(0, 4)), check_cycle, quick=100, thorough=2000),
    SubTest("roundtrip", models(), check, quick=700, thorough=30000),
    SubTest("rejects", st.tuples(
        models(), st.sampled_from(["signature", "flag", "size", "alignment"]),
        st.integers(0, 1000)), check_rejected, quick=300, thorough=6000),
]
