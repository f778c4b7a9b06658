"""P30: Windows Defender scan DetectionHistory files."""

import struct
import uuid

import dt
from vf import SubTest, sequences_equal, st

from dtformats import detection_history

PROPERTY = "P30"
TITLE = "Defender DetectionHistory: every value is read once and named by its set"
STATEMENT = (
    "For every DetectionHistory file, reading it in debug mode reports every value in "
    "file order with its size, type and decoded contents (32 and 64-bit integer, "
    "FILETIME, GUID, UTF-16 string, binary data), whatever alignment padding follows "
    "it, and then every value again under the name of its position in its set, where "
    "each \"Magic.Version:1.2\" string starts a set and the third and later sets are "
    "threat resources, whose threat tracking data (with or without header) is "
    "reported value by value. A file that ends within a value is a parse error.")
QUANTIFIER = ("every sequence of values of every supported type and size, every number "
              "of sets, and every list of threat tracking values")
WHY = "There are no tests or test files for this reader."
FILES = ["dtformats/detection_history.py", "dtformats/detection_history.yaml",
         "dtformats/detection_history.debug.yaml"]
MECHANISM = [
    ("values", "WindowsDefenderScanDetectionHistoryFile._ReadValue"),
    ("sets", "WindowsDefenderScanDetectionHistoryFile.ReadFileObject"),
    ("tracking", "WindowsDefenderScanDetectionHistoryFile._ReadThreatTrackingData"),
]
OBSERVE = ["debug output of Open", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "three or more values of two or more types"
ASSUMPTIONS = []

MAGIC = "Magic.Version:1.2"
CATEGORIES = {int(entry.partition(":")[0]): entry.partition(":")[2] for entry in (
    "0:INVALID 1:ADWARE 2:SPYWARE 3:PASSWORDSTEALER 4:TROJANDOWNLOADER 5:WORM "
    "6:BACKDOOR 7:REMOTEACCESSTROJAN 8:TROJAN 9:EMAILFLOODER 10:KEYLOGGER "
    "11:DIALER 12:MONITORINGSOFTWARE 13:BROWSERMODIFIER 14:COOKIE "
    "15:BROWSERPLUGIN 16:AOLEXPLOIT 17:NUKER 18:SECURITYDISABLER 19:JOKEPROGRAM "
    "20:HOSTILEACTIVEXCONTROL 21:SOFTWAREBUNDLER 22:STEALTHNOTIFIER "
    "23:SETTINGSMODIFIER 24:TOOLBAR 25:REMOTECONTROLSOFTWARE 26:TROJANFTP "
    "27:POTENTIALUNWANTEDSOFTWARE 28:ICQEXPLOIT 29:TROJANTELNET 30:EXPLOIT "
    "31:FILESHARINGPROGRAM 32:MALWARE_CREATION_TOOL 33:REMOTE_CONTROL_SOFTWARE "
    "34:TOOL 36:TROJAN_DENIALOFSERVICE 37:TROJAN_DROPPER 38:TROJAN_MASSMAILER "
    "39:TROJAN_MONITORINGSOFTWARE 40:TROJAN_PROXYSERVER 42:VIRUS 43:KNOWN "
    "44:UNKNOWN 45:SPP 46:BEHAVIOR 47:VULNERABILTIY 48:POLICY 49:EUS 50:RANSOM "
    "51:ASR ").split()}
NAMES = [
    {0: "Threat identifier", 1: "Identifier"},
    {0: "UnknownMagic1", 1: "Threat name", 4: "Category"},
    {0: "UnknownMagic2", 1: "Resource type", 2: "Resource location",
     4: "Threat tracking data size", 6: "Last threat status change time",
     12: "Domain user1", 14: "Process name", 18: "Initial detection time",
     20: "Remediation time", 24: "Domain user2"}]

VALUE = st.one_of(
    st.tuples(st.sampled_from([0, 5, 6]), dt.u(32)), st.tuples(st.just(8), dt.u(64)),
    st.tuples(st.just(10), dt.FILETIME),
    st.tuples(st.just(21), dt.UNICODE1.filter(lambda s: s != MAGIC)),
    st.tuples(st.just(30), st.binary(min_size=16, max_size=16)),
    st.tuples(st.just(40), st.binary(min_size=1, max_size=40)))
CATEGORY = st.tuples(st.just(6), st.one_of(
    st.sampled_from(sorted(CATEGORIES)), st.sampled_from([35, 41, 52, 1000])))
KEY = dt.ASCII1
TRACK_VALUE = st.one_of(
    st.tuples(KEY, st.just(3), dt.u(32)), st.tuples(KEY, st.just(4), dt.u(64)),
    st.tuples(KEY, st.just(5), dt.u(8)), st.tuples(KEY, st.just(6), dt.UNICODE1),
    st.tuples(KEY, st.just(7), st.binary(min_size=5, max_size=5)))
# header, values, whether the size includes itself, unknown2, remainder of the header.
TRACKING = st.tuples(st.booleans(), st.lists(TRACK_VALUE, max_size=4), st.booleans(),
                     dt.u(32), st.sampled_from([b""] * 4 + [b"\1\0\0\0", bytes(12)]))
SET3 = st.tuples(st.lists(VALUE, min_size=4, max_size=4), TRACKING,
                 st.lists(VALUE, max_size=26), st.integers(1, 32))
FILE = st.fixed_dictionaries(dict(
    first=st.lists(VALUE, max_size=3),
    second=st.one_of(st.none(), st.tuples(st.lists(VALUE, max_size=8), CATEGORY)),
    third=dt.many(SET3, max_size=3)))


def utf16(text):
    return text.encode("utf-16-le") + b"\0\0"


def build_tracking(tracking):
    header, values, include, unknown, extra = tracking
    data = b""
    for key, kind, value in values:
        data += struct.pack("<I", len(utf16(key))) + utf16(key) + struct.pack("<I", kind)
        if kind == 3:
            data += struct.pack("<I", value)
        elif kind == 4:
            data += struct.pack("<Q", value)
        elif kind == 5:
            data += struct.pack("<B", value)
        elif kind == 6:
            data += struct.pack("<I", len(utf16(value))) + utf16(value)
        else:
            data += value
    if not header:
        size = len(data) + (4 if include or not values else 0)
        return struct.pack("<I", size) + data, None
    if not values:
        # Header only.
        fields = (1, 20 + len(extra), 0, 20 + len(extra), unknown)
        return struct.pack("<5I", *fields) + extra, fields
    fields = (1, 20 + len(extra), len(data), 24 + len(extra) + len(data), unknown)
    return struct.pack("<5I", *fields) + extra + struct.pack("<I", len(data)) + data, fields


def build_value(kind, value, padding=b"\xaa"):
    if kind in (0, 5, 6):
        data = struct.pack("<I", value)
    elif kind in (8, 10):
        data = struct.pack("<Q", value)
    elif kind == 21:
        data = utf16(value)
    else:
        data = value
    return struct.pack("<II", len(data), kind) + data + padding * (-len(data) % 8)


def flatten(case):
    """Returns [(type, value, set number, index, tracking or None)]."""
    result = []

    def add(set_number, values):
        for index, value in enumerate(values):
            if len(value) == 3:
                result.append((40, build_tracking(value[2])[0], set_number, index,
                               value[2]))
            else:
                result.append((value[0], value[1], set_number, index, None))

    add(0, case["first"])
    if case["second"] is None:
        return result
    values, category = case["second"]
    values = [(21, MAGIC)] + values
    values[4:4] = [category] if len(values) >= 4 else []
    add(1, values)
    for head, tracking, tail, size in case["third"]:
        values = [(21, MAGIC)] + head + [(40, None, tracking)] + tail
        add(2, values[:size])
    return result


def build(case):
    return b"".join(build_value(k, v) for k, v, _, _, _ in flatten(case))


def shown(kind, value):
    if kind == 30:
        return str(uuid.UUID(bytes_le=value))
    return str(value)


def expected_pairs(values):
    pairs, dumps = [], []
    for kind, value, _, _, _ in values:
        data = build_value(kind, value, b"")[8:]
        pairs.extend([("Data size", len(data)), ("Data type", dt.hex8(kind))])
        if kind in (0, 5, 6, 8):
            pairs.append(("Value integer", value))
        elif kind == 10:
            pairs.append(("Value FILETIME", dt.filetime(value)))
        elif kind == 21:
            pairs.append(("Value string", value))
        elif kind == 30:
            pairs.append(("Value GUID", shown(kind, value)))
        else:
            dumps.append(("Data", value))
    for kind, value, set_number, index, tracking in values:
        if tracking is not None:
            _, fields = build_tracking(tracking)
            if fields:
                pairs.extend(zip(
                    ("Version", "Header size", "Values data size", "Total data size"),
                    fields))
                pairs.append(("Unknown2", dt.hex8(fields[4])))
            for key, value_type, item in tracking[1]:
                pairs.extend([
                    ("Key string size", len(utf16(key))), ("Key string", key),
                    ("Value type", dt.hex8(value_type))])
                if value_type == 6:
                    pairs.extend([("Value string size", len(utf16(item))),
                                  ("Value string", item)])
                elif value_type == 7:
                    dumps.append(("Value data", item))
                else:
                    pairs.append(("Value integer", item))
            continue
        name = NAMES[set_number].get(index, f"UNKNOWN_{set_number}_{index}")
        text = shown(kind, value)
        if (set_number, index) == (1, 4):
            text = f"{text} ({CATEGORIES.get(value, 'UNKNOWN')})"
            if kind not in (0, 5, 6, 8) or (
                    value not in CATEGORIES and value not in (35, 41, 52, 1000)):
                text = None
        pairs.append((name, text))
    return pairs, dumps


def check_file(case, ctx):
    values = flatten(case)
    data = build(case)
    path = ctx.write(data, "detection")
    ctx.note(len(values) > 2 and len({v[0] for v in values}) > 1, data,
             [(v[0], v[2], v[3]) for v in values[:8]],
             labels=[f"sets {len(case['third']) if case['second'] else 0}"])
    _, text = dt.read_file(
        detection_history.WindowsDefenderScanDetectionHistoryFile, path)
    pairs, dumps = expected_pairs(values)
    if all(value is not None for _, value in pairs):
        dt.pairs_equal(text, pairs)
    # "Value data" is also the name of the dump of a complete value (8 bytes or more).
    sequences_equal([d for d in dt.dumps(text) if d[0] == "Data" or (
        d[0] == "Value data" and len(d[1]) == 5)],
                    dumps, "binary data")
    dt.read_file(detection_history.WindowsDefenderScanDetectionHistoryFile, path,
                 debug=False)
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, last, cut = value
    good = build(case)
    final = build_value(*last)
    unpadded = len(build_value(*last, b""))
    data = good + final[:cut % unpadded or 1]
    path = ctx.write(data, "reject")
    ctx.note(True, data, (last, cut))
    dt.rejected(detection_history.WindowsDefenderScanDetectionHistoryFile, path,
                f"value of type {last[0]} cut at {cut % unpadded or 1}")


GENERATORS = {"detection_history": FILE.map(build)}
SUBTESTS = [
    SubTest("values", FILE, check_file, 500, 20000),
    SubTest("truncated", st.tuples(FILE, VALUE, st.integers(0, 200)), check_rejected,
            200, 5000),
]
