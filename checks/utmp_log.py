"""P16: utmp and utmpx login records."""

import struct

import dt
from vf import SubTest, equal, st

from dtformats import utmp

PROPERTY = "P16"
TITLE = "utmp and utmpx files: every login record is reported as stored"
STATEMENT = (
    "For every Linux libc6 utmp file and Mac OS X utmpx file, reading it in debug "
    "mode reports every entry in order with the stored type of login and its name, "
    "process identifier, terminal, user, host, statuses, session, time and the IPv4 "
    "or IPv6 address. Strings that are not valid UTF-8 do not prevent the other "
    "values from being reported; a utmpx file whose first entry is not the utmpx 1.00 "
    "signature entry, or a file that ends within an entry, is rejected as a parse "
    "error.")
QUANTIFIER = (
    "every number of entries, type of login (defined or not), string length up to "
    "the size of the field and field value, IPv4 and IPv6 addresses")
WHY = (
    "The tests read one file each and print one entry without looking at the text.")
FILES = ["dtformats/utmp.py", "dtformats/utmp.yaml"]
MECHANISM = [
    ("entry loop and size", "utmp.LinuxLibc6UtmpFile._ReadEntries"),
    ("signature entry", "utmp.MacOSXUtmpxFile._ReadEntries"),
    ("entry values", "utmp.LinuxLibc6UtmpFile._DebugPrintEntry"),
]
OBSERVE = ["debug output of LinuxLibc6UtmpFile.Open and MacOSXUtmpxFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two entries with different types and an address or host"
ASSUMPTIONS = []

LINUX_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "NEW_TIME", 4: "OLD_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS", 8: "DEAD_PROCESS",
    9: "ACCOUNTING"}
MACOS_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "OLD_TIME", 4: "NEW_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS", 8: "DEAD_PROCESS",
    9: "ACCOUNTING", 10: "SIGNATURE", 11: "SHUTDOWN_TIME"}


def fixed(size):
    """UTF-8 text of at most size bytes, also exactly size bytes."""
    def cut(text):
        data = text.encode("utf-8")[:size]
        return data.decode("utf-8", "ignore")
    return st.one_of(
        dt.ASCII, dt.UNICODE, st.just("x" * size), st.just("é" * size),
        st.just("y" * (size - 1))).map(cut)


INVALID = st.sampled_from([b"\xff", b"abc\x80", b"\xc3", b"\xe2\x82x", b"\xed\xa0\x80"])
ADDRESS = st.one_of(
    st.just(b"\0" * 16), st.binary(min_size=4, max_size=4).map(lambda b: b + b"\0" * 12),
    st.binary(min_size=16, max_size=16),
    st.sampled_from([b"\0" * 15 + b"\1", b"\xfe\x80" + b"\0" * 13 + b"\1",
                     b"\xff\xff\xff\xff" + b"\0" * 12,
                     b"\1\2\3\4\5" + b"\0" * 11]))
LINUX = st.fixed_dictionaries(dict(
    type=st.one_of(st.integers(0, 12), dt.u(31)), pid=dt.u(32), terminal=fixed(32),
    terminal_identifier=dt.u(32), username=fixed(32), hostname=fixed(256),
    termination=dt.u(15), exit=dt.u(15), session=dt.s(32), timestamp=dt.s(32),
    microseconds=dt.s(32), address=ADDRESS,
    unknown1=st.binary(min_size=20, max_size=20)))
MACOS = st.fixed_dictionaries(dict(
    username=fixed(256), terminal_identifier=dt.u(32), terminal=fixed(32), pid=dt.u(32),
    type=st.one_of(st.integers(0, 13), dt.u(15)), unknown1=dt.u(15),
    timestamp=dt.s(32), microseconds=dt.s(32), hostname=fixed(256),
    unknown2=st.binary(min_size=64, max_size=64)))
SIGNATURE = dict(
    username="utmpx-1.00", terminal_identifier=0, terminal="", pid=0, type=10,
    unknown1=0, timestamp=0, microseconds=0, hostname="", unknown2=b"\0" * 64)


def data_of(value):
    return value if isinstance(value, bytes) else value.encode("utf-8")


def pack_linux(e):
    return struct.pack(
        "<iI32sI32s256shhiii16s20s", e["type"], e["pid"], data_of(e["terminal"]),
        e["terminal_identifier"], data_of(e["username"]), data_of(e["hostname"]),
        e["termination"], e["exit"], e["session"], e["timestamp"], e["microseconds"],
        e["address"], e["unknown1"])


def address_string(address):
    if address[4:] == b"\0" * 12:
        return ".".join(str(octet) for octet in address[:4])
    return ":".join(address[i:i + 2].hex() for i in range(0, 16, 2))


def pairs_linux(e):
    return [
        ("Type of login",
         f"0x{e['type']:08x} ({LINUX_TYPES.get(e['type'], 'UNKNOWN')})"),
        ("PID", e["pid"]), ("Terminal", e["terminal"]),
        ("Terminal ID", e["terminal_identifier"]), ("Username", e["username"]),
        ("Hostname", e["hostname"]), ("Termination status", dt.hex4(e["termination"])),
        ("Exit status", dt.hex4(e["exit"])), ("Session", e["session"]),
        ("Timestamp", dt.posix(e["timestamp"])), ("Microseconds", e["microseconds"]),
        ("IP address", address_string(e["address"]))]


def pack_macos(e):
    return struct.pack(
        "<256sI32sIhhii256s64s", data_of(e["username"]), e["terminal_identifier"],
        data_of(e["terminal"]), e["pid"], e["type"], e["unknown1"], e["timestamp"],
        e["microseconds"], data_of(e["hostname"]), e["unknown2"])


def pairs_macos(e):
    return [
        ("Username", e["username"]), ("Terminal ID", e["terminal_identifier"]),
        ("Terminal", e["terminal"]), ("PID", e["pid"]),
        ("Type of login",
         f"0x{e['type']:04x} ({MACOS_TYPES.get(e['type'], 'UNKNOWN')})"),
        ("Unknown1", dt.hex4(e["unknown1"])),
        ("Timestamp", dt.posix(e["timestamp"])), ("Microseconds", e["microseconds"]),
        ("Hostname", e["hostname"])]


def check_linux(entries, ctx):
    data = b"".join(pack_linux(e) for e in entries)
    path = ctx.write(data)
    ctx.note(
        len({e["type"] for e in entries}) > 1 and any(
            any(e["address"]) for e in entries), data, entries)
    _, text = dt.read_file(utmp.LinuxLibc6UtmpFile, path)
    dt.pairs_equal(
        text, [p for e in entries for p in pairs_linux(e)], labels=["PID"])
    equal([d for name, d in dt.dumps(text) if name == "Unknown1"],
          [e["unknown1"] for e in entries], "unknown1")
    dt.files_unchanged(path, data)


def check_macos(entries, ctx):
    entries = [SIGNATURE] + entries
    data = b"".join(pack_macos(e) for e in entries)
    path = ctx.write(data)
    ctx.note(
        len({e["type"] for e in entries}) > 1 and any(e["hostname"] for e in entries),
        data, entries)
    _, text = dt.read_file(utmp.MacOSXUtmpxFile, path)
    dt.pairs_equal(
        text, [p for e in entries for p in pairs_macos(e)], labels=["PID"])
    equal([d for name, d in dt.dumps(text) if name == "Unknown2"],
          [e["unknown2"] for e in entries], "unknown2")


def check_invalid(case, ctx):
    """Strings that are not UTF-8: the other values are still reported."""
    linux, entries, key, invalid = case
    entries = [dict(e) for e in entries]
    entries[0][key] = invalid
    if not linux:
        entries.insert(0, SIGNATURE)
    pack, pairs, cls = (
        (pack_linux, pairs_linux, utmp.LinuxLibc6UtmpFile) if linux
        else (pack_macos, pairs_macos, utmp.MacOSXUtmpxFile))
    path = ctx.write(b"".join(pack(e) for e in entries))
    ctx.note(True, (entries, key), (key, invalid))
    _, text = dt.read_file(cls, path)
    label = key.capitalize()
    dt.pairs_equal(
        text, [p for e in entries for p in pairs(e) if p[0] != label], labels=["PID"])


def check_rejected(case, ctx):
    entries, kind, number = case
    entries = [dict(SIGNATURE)] + entries
    cut = 0
    if kind == "signature":
        entries[0]["username"] = [
            "utmpx-1.01", "utmpx-1.0", "", "utmpx-1.00x", "Utmpx-1.00", "utmpx-1.00/",
            "xutmpx-1.00", "utmpx-2.00"][number % 8]
    elif kind == "type":
        entries[0]["type"] = dt.wrong(10, 15, number, [
            0, 1, 9, 11, 2 + 8 * 256])
    else:
        cut = 1 + number % 627
    data = b"".join(pack_macos(e) for e in entries)
    data = data[:len(data) - cut]
    path = ctx.write(data)
    ctx.note(len(entries) > 1, data, (kind, number), labels=[kind])
    dt.rejected(utmp.MacOSXUtmpxFile, path, f"{kind} {number:d}")
    if kind == "truncated" and len(entries) > 1:
        data = pack_linux(LINUX_ENTRY)[:-(1 + number % 383)]
        path = ctx.write(pack_linux(LINUX_ENTRY) + data)
        dt.rejected(utmp.LinuxLibc6UtmpFile, path, f"{kind} {number:d}")


LINUX_ENTRY = dict(
    type=7, pid=1, terminal="tty", terminal_identifier=1, username="u", hostname="h",
    termination=0, exit=0, session=1, timestamp=1, microseconds=1,
    address=b"\0" * 16, unknown1=b"\0" * 20)

KEY = st.sampled_from(["terminal", "username", "hostname"])
SUBTESTS = [
    SubTest("utmp", dt.many(LINUX, max_size=5), check_linux, 500, 20000),
    SubTest("utmpx", dt.many(MACOS, max_size=5), check_macos, 400, 20000),
    SubTest("invalid_strings", st.one_of(
        st.tuples(st.just(True), st.lists(LINUX, min_size=1, max_size=3), KEY, INVALID),
        st.tuples(st.just(False), st.lists(MACOS, min_size=1, max_size=3), KEY,
                  INVALID)), check_invalid, 200, 4000),
    SubTest("rejects", st.tuples(
        st.lists(MACOS, max_size=2), st.sampled_from(["signature", "type", "truncated"]),
        st.integers(0, 5000)), check_rejected, 150, 3000),
]
