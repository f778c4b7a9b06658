"""P25: Basic Security Module (BSM) event auditing files."""

import struct

import bsm_events
import dt
from vf import SubTest, equal, st

from dtformats import bsm

PROPERTY = "P25"
TITLE = "BSM event auditing files: every token of every record is reported as stored"
STATEMENT = (
    "For every BSM event auditing file, reading it in debug mode reports every record "
    "in order, each starting with its header token and ending with its trailer token, "
    "and every supported token between them with the values stored: big-endian "
    "integers of the width the token type has, signed user and group identifiers, "
    "IPv4 and IPv6 addresses selected by the net type, sized and NUL-terminated "
    "strings, arrays of strings and of group identifiers, binary data and date and "
    "time. A record that does not start with a header token, has another format "
    "version or net type, does not end with a trailer token, or of which the trailer "
    "has another record size than the header is rejected as a parse error.")
QUANTIFIER = (
    "every sequence of records and of tokens of every supported type, and every value "
    "of each token")
WHY = (
    "The tests read two files, which do not contain most of the token types, and do "
    "not look at any value.")
FILES = ["dtformats/bsm.py", "dtformats/bsm.yaml", "dtformats/bsm.debug.yaml"]
MECHANISM = [
    ("record loop", "bsm.BSMEventAuditingFile._ReadRecord"),
    ("token dispatch", "bsm.BSMEventAuditingFile._ReadToken"),
    ("file loop", "bsm.BSMEventAuditingFile.ReadFileObject"),
]
OBSERVE = ["debug output and exceptions of BSMEventAuditingFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "a record with at least two different tokens between header and trailer"
ASSUMPTIONS = ["strings are ASCII, as the format definition has them"]


def ip4(data):
    return ".".join(str(b) for b in data)


def ip6(data):
    return ":".join(data[i:i + 2].hex() for i in range(0, 16, 2))


def address(data):
    return ip4(data) if len(data) == 4 else ip6(data)


IP4 = st.binary(min_size=4, max_size=4)
IP6 = st.binary(min_size=16, max_size=16)
IP = st.one_of(IP4, IP6)

EVENT_TYPES = bsm_events.NAMES


def token(kind, *fields):
    return st.tuples(st.just(kind), st.tuples(*fields))


U8, U16, U32, U64, S32 = dt.u(8), dt.u(16), dt.u(32), dt.u(64), dt.s(32)
SUBJECT = (S32, S32, S32, S32, S32, U32, U32)
STRING = st.one_of(dt.ASCII, dt.ASCII.map(lambda s: s + "\0"))



def arguments(case):
    """Strings of which the token has about the size."""
    size, number, before = case
    sizes = [size // number] * (number - 1)
    sizes.append(max(0, size - sum(sizes) - number))
    return before + ["abcdefghij"[:10 - i % 3] * (n // 10 + 1) for i, n in enumerate(sizes)]


# Sizes around those of the data the arguments are read in.
LARGE = st.tuples(
    st.sampled_from([1, 2, 4, 4, 8, 8, 16, 33]).flatmap(
        lambda n: st.integers(n * 1024 - 40, n * 1024 + 20)),
    st.integers(1, 5), st.lists(dt.ASCII, max_size=2)).map(arguments)

TOKENS = st.one_of(
    token(0x2d, U8, U32, STRING), token(0x71, U8, U64, STRING),
    token(0x3e, U16, U16, S32, S32, U32, U64, U32),
    token(0x73, U16, U16, S32, S32, U32, U64, U64),
    token(0x21, U8, U8, st.binary(max_size=40)),
    token(0x3c, dt.many(dt.ASCII, max_size=6)),
    token(0x3d, dt.many(dt.ASCII, max_size=6)),
    token(0x52, U32, U32), token(0x34, dt.many(U32, max_size=6)),
    token(0x3b, dt.many(U32, max_size=6)), token(0x2a, IP4),
    token(0x7e, st.sampled_from([4, 16]), IP6),
    token(0x2b, st.binary(min_size=12, max_size=12), IP4, IP4),
    token(0x22, U8, U32),
    token(0x32, U32, U32, U32, U32, U16, U16, U16, U16, U16, U16),
    token(0x2c, U16), token(0x29, st.binary(max_size=40)),
    token(0x11, dt.POSIX32, U32, STRING), token(0x23, STRING), token(0x28, STRING),
    token(0x60, STRING), token(0x27, U8, U32), token(0x72, U8, U64),
    token(0x2f, U32),
    token(0x7f, U16, U16, U16, U16, st.one_of(
        st.tuples(IP4, IP4), st.tuples(IP6, IP6))),
    token(0x80, U16, U16, IP4), token(0x81, U16, U16, IP6),
    token(0x82, U16, dt.ASCII),
    token(0x24, *SUBJECT, U32, IP4), token(0x26, *SUBJECT, U32, IP4),
    token(0x75, *SUBJECT, U64, IP4), token(0x77, *SUBJECT, U64, IP4),
    token(0x7a, *SUBJECT, U32, IP), token(0x7b, *SUBJECT, U32, IP),
    token(0x7c, *SUBJECT, U64, IP), token(0x7d, *SUBJECT, U64, IP),
)
HEADER = st.fixed_dictionaries(dict(
    kind=st.sampled_from([0x14, 0x15, 0x74, 0x79]),
    event=st.one_of(U16, st.sampled_from(sorted(EVENT_TYPES))), modifier=U16, ip=IP,
    timestamp=dt.POSIX32, microseconds=U32))
RECORD = st.tuples(HEADER, dt.many(TOKENS, max_size=6))
FILE = dt.many(RECORD, max_size=4)


def encode(kind, f):
    """Returns the token data, expected values and expected hexadecimal dumps."""
    t = ("Token type", dt.hex2(kind))
    if kind in (0x2d, 0x71):
        v = f[2].encode()
        return (struct.pack(">BBI" if kind == 0x2d else ">BBQ", kind, f[0], f[1]) +
                struct.pack(">H", len(v)) + v), [
            t, ("Argument index", f[0]), ("Argument name", dt.hex8(f[1])),
            ("Argument value size", len(v)), ("Argument value", f[2].rstrip("\0"))], []
    if kind in (0x3e, 0x73):
        return struct.pack(
            ">BHHiiIQI" if kind == 0x3e else ">BHHiiIQQ", kind, *f), [
            t, ("Unknown1", dt.hex4(f[0])), ("File mode", dt.hex4(f[1])),
            ("User identifier (UID)", f[2]), ("Group identifier (GID)", f[3]),
            ("File system identifier", dt.hex8(f[4])),
            ("File identifier", dt.hex8(f[5])), ("Device", dt.hex8(f[6]))], []
    if kind == 0x21:
        return struct.pack(">BBBB", kind, f[0], f[1], len(f[2])) + f[2], [
            t, ("Data format", dt.hex2(f[0])), ("Element data type", dt.hex2(f[1])),
            ("Number of elements", len(f[2]))], [f[2]]
    if kind in (0x3c, 0x3d):
        return struct.pack(">BI", kind, len(f[0])) + b"".join(
            v.encode() + b"\0" for v in f[0]), [
            t, ("Number of strings", len(f[0])), ("Strings", ", ".join(f[0]))], []
    if kind == 0x52:
        return struct.pack(">BII", kind, *f), [
            t, ("Status", dt.hex8(f[0])), ("Return value", dt.hex8(f[1]))], []
    if kind in (0x34, 0x3b):
        return struct.pack(f">BI{len(f[0]):d}I", kind, len(f[0]), *f[0]), [
            t, ("Number of groups", len(f[0])),
            ("Groups", ", ".join(str(v) for v in f[0]))], []
    if kind == 0x2a:
        return struct.pack(">B4s", kind, f[0]), [t, ("IP address", ip4(f[0]))], []
    if kind == 0x7e:
        return struct.pack(">BI16s", kind, *f), [
            t, ("Net type", f[0]), ("IP address", ip6(f[1]))], []
    if kind == 0x2b:
        return struct.pack(">B12s4s4s", kind, *f), [
            t, ("Source IP address", ip4(f[1])),
            ("Destination IP address", ip4(f[2]))], []
    if kind == 0x22:
        return struct.pack(">BBI", kind, *f), [
            t, ("Object type", dt.hex2(f[0])),
            ("Object identifier", dt.hex8(f[1]))], []
    if kind == 0x32:
        return struct.pack(">BIIIIHHHHHH", kind, *f), [
            t, ("User identifier (UID)", f[0]), ("Group identifier (GID)", f[1]),
            ("Creator user identifier (UID)", f[2]),
            ("Creator group identifier (GID)", f[3]), ("Unknown1", dt.hex4(f[4])),
            ("Access mode", dt.hex4(f[5])), ("Unknown2", dt.hex4(f[6])),
            ("Slot sequence number", f[7]), ("Unknown3", dt.hex4(f[8])),
            ("Key", dt.hex4(f[9]))], []
    if kind == 0x2c:
        return struct.pack(">BH", kind, f[0]), [t, ("Port number", f[0])], []
    if kind == 0x29:
        return struct.pack(">BH", kind, len(f[0])) + f[0], [
            t, ("Data size", len(f[0]))], [f[0]]
    if kind == 0x11:
        v = f[2].encode()
        return struct.pack(">BIIH", kind, f[0], f[1], len(v)) + v, [
            t, ("Timestamp", dt.posix(f[0])), ("Microseconds", f[1]),
            ("Name size", len(v)), ("Name", f[2].rstrip("\0"))], []
    if kind in (0x23, 0x28, 0x60):
        v = f[0].encode()
        name = {0x23: "Path", 0x28: "Text", 0x60: "Name"}[kind]
        return struct.pack(">BH", kind, len(v)) + v, [
            t, (f"{name:s} size", len(v)), (name, f[0].rstrip("\0"))], []
    if kind in (0x27, 0x72):
        return struct.pack(">BBI" if kind == 0x27 else ">BBQ", kind, *f), [
            t, ("Status", dt.hex8(f[0])), ("Return value", dt.hex8(f[1]))], []
    if kind == 0x2f:
        return struct.pack(">BI", kind, f[0]), [t, ("Sequence number", f[0])], []
    if kind == 0x7f:
        local, remote = f[4]
        return (struct.pack(">BHHHH", kind, f[0], f[1], len(local), f[2]) + local +
                struct.pack(">H", f[3]) + remote), [
            t, ("Socket domain", dt.hex4(f[0])), ("Socket type", dt.hex4(f[1])),
            ("Net type", len(local)), ("Local port", f[2]),
            ("Local IP address", address(local)), ("Remote port", f[3]),
            ("Remote IP address", address(remote))], []
    if kind in (0x80, 0x81):
        return struct.pack(">BHH", kind, f[0], f[1]) + f[2], [
            t, ("Socket family", dt.hex4(f[0])), ("Local port", f[1]),
            ("Local IP address", address(f[2]))], []
    if kind == 0x82:
        return struct.pack(">BH", kind, f[0]) + f[1].encode() + b"\0", [
            t, ("Socket family", dt.hex4(f[0])), ("Socket path", f[1])], []
    wide = kind in (0x75, 0x77, 0x7c, 0x7d)
    extended = kind in (0x7a, 0x7b, 0x7c, 0x7d)
    data = struct.pack(">BiiiiiIIQ" if wide else ">BiiiiiIII", kind, *f[:8])
    expected = [
        t, ("Audit user identifier", f[0]), ("Effective user identifier", f[1]),
        ("Effective group identifier", f[2]), ("Real user identifier", f[3]),
        ("Real group identifier", f[4]), ("Process identifier (PID)", f[5]),
        ("Session identifier", f[6]), ("Terminal port", f[7])]
    if extended:
        data += struct.pack(">I", len(f[8]))
        expected.append(("Net type", len(f[8])))
    expected.append(("IP address", address(f[8])))
    return data + f[8], expected, []


def header(h, size):
    wide = h["kind"] in (0x74, 0x79)
    extended = h["kind"] in (0x15, 0x79)
    data = struct.pack(
        ">BIBHH", h["kind"], size, 11, h["event"], h["modifier"])
    expected = [
        ("Token type", dt.hex2(h["kind"])), ("Record size", size),
        ("Format version", 11), ("Event type", (h["event"],)),
        ("Modifier", dt.hex4(h["modifier"]))]
    if extended:
        data += struct.pack(">I", len(h["ip"])) + h["ip"]
        expected.extend([
            ("Net type", len(h["ip"])), ("IP address", address(h["ip"]))])
    data += struct.pack(
        ">QQ" if wide else ">II", h["timestamp"], h["microseconds"])
    expected.extend([
        ("Timestamp", dt.posix(h["timestamp"])), ("Microseconds", h["microseconds"])])
    return data, expected


def build(records):
    result, expected, dumps = b"", [], []
    for h, tokens in records:
        encoded = [encode(kind, fields) for kind, fields in tokens]
        size = len(header(h, 0)[0]) + sum(len(e[0]) for e in encoded) + 7
        data, values = header(h, size)
        result += data
        expected.extend(values)
        for d, values, binary in encoded:
            result += d
            expected.extend(values)
            dumps.extend(binary)
        result += struct.pack(">BHI", 0x13, 0xb105, size)
        expected.extend([
            ("Token type", "0x13"), ("Signature", "0xb105"), ("Record size", size)])
    return result, expected, dumps


def check_roundtrip(records, ctx):
    data, expected, dumps = build(records)
    path = ctx.write(data)
    kinds = {kind for _, tokens in records for kind, _ in tokens}
    ctx.note(len(kinds) > 1, data, records,
             labels=[f"token 0x{kind:02x}" for kind in kinds])
    _, text = dt.read_file(bsm.BSMEventAuditingFile, path)
    flat = []
    for label, value in expected:
        if label == "Event type":
            value = f"0x{value[0]:04x} ({EVENT_TYPES.get(value[0], 'UNKNOWN'):s})"
        flat.append((label, value))
    dt.pairs_equal(text, flat)
    equal([d for name, d in dt.dumps(text) if name == "Data" and d],
          [d for d in dumps if d], "binary data of tokens")
    dt.read_file(bsm.BSMEventAuditingFile, path, debug=False)
    dt.files_unchanged(path, data)


def event_records(case):
    """Records of 64 successive known event types."""
    start, header = case
    known = sorted(EVENT_TYPES)
    return [(dict(header, event=known[(start * 64 + i) % len(known)]), [])
            for i in range(64)]


LARGE_TOKENS = st.lists(st.tuples(HEADER, st.tuples(
    token(0x3c, LARGE), TOKENS, token(0x3d, LARGE) | TOKENS).map(list)),
    min_size=1, max_size=2)
EVENTS = st.tuples(st.integers(0, len(EVENT_TYPES) // 64), HEADER).map(event_records)

DAMAGE = st.tuples(
    RECORD, st.sampled_from(
        ["version", "trailer size", "trailer signature", "no trailer", "first token",
         "net type", "truncated", "unknown token"]),
    st.integers(0, 1 << 16), st.lists(RECORD, max_size=1))


def check_rejected(case, ctx):
    (h, tokens), kind, number, before = case
    h = dict(h)
    if kind == "net type":
        h["kind"] = 0x15 if number % 2 else 0x79
    data = bytearray(build([(h, tokens)])[0])
    size = len(data)
    if kind == "version":
        data[5] = (12 + number % 255) % 256
    elif kind == "trailer size":
        value = dt.wrong(size, 32, number, [(size + 1 + number) & 0xffffffff])
        data[-4:] = struct.pack(">I", value)
    elif kind == "trailer signature":
        data[-6:-4] = struct.pack(">H", (0xb105 + 1 + number % 0xffff) & 0xffff)
    elif kind == "no trailer":
        data = data[:-7] + encode(0x2f, (number,))[0] + b"\x2c\0\0"
        data[1:5] = struct.pack(">I", len(data) - 3)
    elif kind == "first token":
        data = bytearray(encode(0x2f, (number,))[0]) + data
    elif kind == "net type":
        value = number if number not in (4, 16) else 5
        data[10:14] = struct.pack(">I", value % 64 if value % 64 not in (4, 16) else 6)
        data += bytes(80)
    elif kind == "truncated":
        data = data[:max(1, size - 1 - number % size)]
    else:
        data[-7:-7] = bytes([0xe0 + number % 16])
    data = build(before)[0] + bytes(data)
    ctx.note(bool(tokens), data, (kind, case), labels=[kind])
    path = ctx.write(data)
    dt.rejected(bsm.BSMEventAuditingFile, path, kind)


GENERATORS = {"bsm": FILE.map(lambda f: build(f)[0])}

SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 800, 12000),
    SubTest("large arguments", LARGE_TOKENS, check_roundtrip, 40, 1000),
    SubTest("event names", EVENTS, check_roundtrip, 40, 100),
    SubTest("rejected", DAMAGE, check_rejected, 400, 6000),
]
