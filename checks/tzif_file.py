"""P17: Time zone information files."""

import struct

import dt
from vf import SubTest, equal, sequences_equal, st

from dtformats import tzif

PROPERTY = "P17"
TITLE = "TZif files: all sections of both blocks are read where they are stored"
STATEMENT = (
    "For every valid time zone information file of version 1, 2 or 3, reading it in "
    "debug mode reports the header counts, transition times, type indexes and the "
    "content of every other section of the 32-bit block and, for version 2 and 3, of "
    "the 64-bit block that follows it and the time zone string, each from its own "
    "data, also when a section is empty. Files with another signature or format "
    "version, or that are truncated, are rejected as parse errors.")
QUANTIFIER = (
    "every combination of section sizes (including zero) in both blocks, transition "
    "time (negative and 64-bit), type index and version")
WHY = (
    "The tests read one file, of which both blocks have the same counts and no leap "
    "seconds, without looking at what is reported.")
FILES = ["dtformats/tzif.py", "dtformats/tzif.yaml"]
MECHANISM = [
    ("order and size of the sections",
     "tzif.TimeZoneInformationFile._ReadTimeZoneInformation32bit / 64bit"),
    ("header", "tzif.TimeZoneInformationFile._ReadFileHeader"),
]
OBSERVE = ["debug output of TimeZoneInformationFile.Open", "format_version"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "version 2 or 3 with blocks of different counts and transition times"
ASSUMPTIONS = []


def block(bits):
    return st.fixed_dictionaries(dict(
        unknown1=st.binary(min_size=15, max_size=15),
        times=dt.many(dt.s(bits), max_size=6),
        index=st.lists(dt.u(8), min_size=6, max_size=6).map(lambda v: v * 44),
        types=dt.many(st.binary(min_size=6, max_size=6), max_size=4),
        strings=st.binary(max_size=40),
        leap=dt.many(st.binary(min_size=12, max_size=12), max_size=3),
        standard=st.binary(max_size=5), utc=st.binary(max_size=5)))


MODELS = st.fixed_dictionaries(dict(
    version=st.sampled_from([0, 0x32, 0x32, 0x33]), block1=block(32), block2=block(64),
    string=st.one_of(st.just(b"\n\n"), dt.ASCII.map(
        lambda s: b"\n" + s.encode() + b"\n"))))


def pack(m, version, bits):
    code, leap_size = ("i", 8) if bits == 32 else ("q", 12)
    leap = b"".join(leap[:leap_size] for leap in m["leap"])
    data = b"TZif" + bytes([version]) + m["unknown1"] + struct.pack(
        ">6I", len(m["utc"]), len(m["standard"]), len(m["leap"]), len(m["times"]),
        len(m["types"]), len(m["strings"]))
    data += b"".join(struct.pack(">" + code, time) for time in m["times"])
    data += bytes(m["index"][:len(m["times"])]) + b"".join(m["types"])
    data += m["strings"] + leap + m["standard"] + m["utc"]
    pairs = [
        ("Signature", "b'TZif'"), ("Format version", dt.hex2(version)),
        ("Number of UTC time indicators", len(m["utc"])),
        ("Number of standard time indicators", len(m["standard"])),
        ("Number of leap seconds", len(m["leap"])),
        ("Number of transition times", len(m["times"])),
        ("Number of local time types", len(m["types"])),
        ("Time zone abbreviation strings size", len(m["strings"]))]
    pairs += [(f"Transition time: {i:d}", t) for i, t in enumerate(m["times"])]
    pairs += [(f"Type of local time: {i:d}", m["index"][i])
              for i in range(len(m["times"]))]
    dumps = [
        ("Unknown1", m["unknown1"]),
        ("Local time types table data", b"".join(m["types"])),
        ("Timezeone abbreviation strings data", m["strings"]),
        ("Leap second records data", leap),
        ("Standard time indicators data", m["standard"]),
        ("UTC time indicators data", m["utc"])]
    return data, pairs, dumps


def build(m):
    data, pairs, dumps = pack(m["block1"], m["version"], 32)
    if m["version"]:
        more, more_pairs, more_dumps = pack(m["block2"], m["version"], 64)
        data += more + m["string"]
        pairs += more_pairs
        dumps += more_dumps + [("Time zone string", m["string"])]
    return data, pairs, dumps


def check(m, ctx):
    data, pairs, dumps = build(m)
    path = ctx.write(data)
    ctx.note(
        m["version"] and m["block2"]["times"] and
        len(m["block1"]["times"]) != len(m["block2"]["times"]), data, m,
        labels=[f"version 0x{m['version']:02x}"])
    parser, text = dt.read_file(tzif.TimeZoneInformationFile, path)
    equal(parser.format_version, m["version"], "format version")
    labels = [f"Transition time: {i:d}" for i in range(8)]
    labels += [f"Type of local time: {i:d}" for i in range(8)]
    dt.pairs_equal(text, pairs, labels=labels)
    names = {name for name, _ in dumps}
    sequences_equal(
        [d for d in dt.dumps(text) if d[0] in names], dumps, "section data")
    dt.files_unchanged(path, data)


def check_rejected(case, ctx):
    m, kind, number = case
    data, _, _ = build(m)
    size1 = len(pack(m["block1"], m["version"], 32)[0])
    data = bytearray(data)
    second = size1 if m["version"] and number % 2 else 0
    if kind == "signature":
        data[second + number % 4] ^= 1 + number % 255
    elif kind == "version":
        wrong = dt.wrong(data[second + 4], 8, number, [1, 0x31, 0x35, 0xFF, 2])
        data[second + 4] = wrong if wrong not in (0, 0x32, 0x33, 0x34) else 0x31
    else:
        end = len(data) - (len(m["string"]) if m["version"] else 0)
        data = data[:number % end]
    data = bytes(data)
    path = ctx.write(data)
    ctx.note(bool(m["version"]), data, (kind, number), labels=[kind])
    dt.rejected(tzif.TimeZoneInformationFile, path, f"{kind} {number:d}")


SUBTESTS = [
    SubTest("roundtrip", MODELS, check, 800, 30000),
    SubTest("rejects", st.tuples(
        MODELS, st.sampled_from(["signature", "version", "truncated"]),
        st.integers(0, 5000)), check_rejected, 400, 8000),
]
