"""P31: Windows Jump List files."""

import struct
import uuid

import dt
import olecf
from vf import SubTest, equal, sequences_equal, st

from dtformats import jump_list

PROPERTY = "P31"
TITLE = "Jump lists: every DestList entry, category and shortcut is reported"
STATEMENT = (
    "For every automatic destinations file (OLE compound file with a DestList stream "
    "of format version 1 to 4, possibly empty), debug mode reports the DestList header "
    "and every DestList entry in order with all its values, in the layout of its "
    "version, and GetJumpListEntries yields one entry per other stream, with the name "
    "of the stream and the shortcut stored in it. For every custom destinations file, "
    "every category is reported with its type, name or identifier and number of "
    "entries, followed by its footer and the trailing data, and GetJumpListEntries "
    "yields every shortcut of every category in order, with its offset in the file. "
    "A missing DestList stream, other versions, unknown category types or entries, a "
    "missing footer and data that ends early are parse errors. Reading a second file "
    "with the same object reports only the second file.")
QUANTIFIER = ("every DestList version, number of entries, path and host name, every "
              "number and type of categories, every shortcut size")
WHY = ("One file of each kind is tested, without comparing what is read.")
FILES = ["dtformats/jump_list.py", "dtformats/jump_list.yaml",
         "dtformats/jump_list.debug.yaml"]
MECHANISM = [
    ("automatic destinations", "AutomaticDestinationsFile._ReadDestList"),
    ("custom destinations", "CustomDestinationsFile.ReadFileObject"),
    ("entries", "GetJumpListEntries"),
]
OBSERVE = ["debug output of Open", "GetJumpListEntries", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more entries or categories"
ASSUMPTIONS = [
    "pyolecf and pylnk (installed C libraries) read the containers",
    "paths are valid UTF-16",
]

SHORTCUT = st.tuples(
    dt.UNICODE, dt.UNICODE, dt.u(32), st.tuples(dt.FILETIME, dt.FILETIME, dt.FILETIME),
    st.lists(st.tuples(st.sampled_from([0xA0000009, 0xA0000042]),
                       st.binary(min_size=4, max_size=40)), max_size=2))
FLOAT = st.floats(width=32, allow_nan=False, allow_infinity=False,
                  min_value=-1000000, max_value=1000000)
ID16 = st.binary(min_size=16, max_size=16)
ENTRY = st.tuples(
    dt.u(64), st.tuples(ID16, ID16, ID16, ID16),
    st.text(alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ-0123456789", max_size=16),
    dt.u(32), dt.u(32), FLOAT, dt.FILETIME, dt.s(32), dt.s(32), dt.u(32), dt.u(64),
    st.one_of(dt.UNICODE, st.text("ab\\", min_size=40, max_size=300)), dt.u(32))
HEADER = st.tuples(dt.u(32), dt.u(32), FLOAT, dt.u(32), dt.u(32), dt.u(32), dt.u(32))
NAMES = st.lists(st.integers(1, 0x1FFFF).map(lambda n: f"{n:x}"), unique=True,
                 max_size=8)
AUTOMATIC = st.fixed_dictionaries(dict(
    version=st.sampled_from([1, 2, 3, 4]), header=HEADER,
    empty=st.sampled_from([False] * 7 + [True]),
    entries=dt.many(ENTRY, max_size=6),
    shortcuts=NAMES.flatmap(lambda names: st.tuples(*[
        st.tuples(st.just(n), SHORTCUT) for n in names])),
    large=st.sampled_from([0, 0, 0, 5000])))

CATEGORY = st.one_of(
    st.tuples(st.just(0), dt.UNICODE, dt.many(SHORTCUT, max_size=4)),
    st.tuples(st.just(1), dt.u(32), st.just([])),
    st.tuples(st.just(2), st.none(), dt.many(SHORTCUT, max_size=4)))
CUSTOM = st.fixed_dictionaries(dict(
    unknown=dt.u(32), categories=dt.many(CATEGORY, max_size=4),
    trailing=st.one_of(st.just(b""), st.binary(max_size=20))))


def units(text):
    return len(text.encode("utf-16-le")) // 2


def build_entry(version, entry):
    (unknown1, ids, host, number, unknown2, real, time, pin, unknown4, unknown5,
     unknown6, path, unknown7) = entry
    data = struct.pack("<Q", unknown1) + b"".join(ids) + struct.pack(
        "<16sIIfQi", host.encode("ascii"), number, unknown2, real, time, pin)
    if version > 1:
        data += struct.pack("<iIQ", unknown4, unknown5, unknown6)
    data += struct.pack("<H", units(path)) + path.encode("utf-16-le")
    if version > 1:
        data += struct.pack("<I", unknown7)
    return data


def dest_list(case):
    if case["empty"]:
        return b""
    h = case["header"]
    return struct.pack("<IIIfIIII", case["version"], *h) + b"".join(
        build_entry(case["version"], e) for e in case["entries"])


def build_shortcut(shortcut):
    description, arguments, size, times, blocks = shortcut
    return olecf.lnk(description, arguments, size, times, blocks)


def build_automatic(case):
    streams = [(name, build_shortcut(s)) for name, s in case["shortcuts"]]
    if case["large"] and streams:
        name, data = streams[0]
        streams[0] = (name, data + b"\0" * case["large"])
    return olecf.write([("DestList", dest_list(case))] + streams)


def expected_automatic(case):
    if case["empty"]:
        return []
    h = case["header"]
    pairs = [
        ("Format version", case["version"]), ("Number of entries", h[0]),
        ("Number of pinned entries", h[1]), ("Unknown1", f"{h[2]:f}"),
        ("Last entry number", h[3]), ("Unknown2", dt.hex8(h[4])),
        ("Last revision number", h[5]), ("Unknown3", dt.hex8(h[6]))]
    for (unknown1, ids, host, number, unknown2, real, time, pin, unknown4, unknown5,
         unknown6, path, unknown7) in case["entries"]:
        pairs.append(("Unknown1", dt.hex8(unknown1)))
        pairs.extend(zip(
            ("Droid volume identifier", "Droid file identifier",
             "Birth droid volume identifier", "Birth droid file identifier"),
            [uuid.UUID(bytes_le=i) for i in ids]))
        pairs.extend([
            ("Hostname", host), ("Entry number", number),
            ("Unknown2", dt.hex8(unknown2)), ("Unknown3", f"{real:f}"),
            ("Last modification time", dt.filetime(time)), ("Pin status", pin)])
        if case["version"] > 1:
            pairs.extend([("Unknown4", unknown4), ("Unknown5", dt.hex8(unknown5)),
                          ("Unknown6", dt.hex8(unknown6))])
        size = units(path)
        pairs.extend([("Path size", f"{size} characters ({size * 2} bytes)"),
                      ("Path", path)])
        if case["version"] > 1:
            pairs.append(("Unknown7", dt.hex8(unknown7)))
    return pairs


def shortcut_equal(entry, identifier, shortcut, what):
    equal(entry.identifier, identifier, f"{what}: identifier")
    equal(entry.lnk_file.description or "", shortcut[0], f"{what}: description")
    equal(entry.lnk_file.command_line_arguments or "", shortcut[1],
          f"{what}: arguments")
    equal(entry.lnk_file.file_size, shortcut[2], f"{what}: file size")
    equal([entry.lnk_file.get_file_creation_time_as_integer(),
           entry.lnk_file.get_file_access_time_as_integer(),
           entry.lnk_file.get_file_modification_time_as_integer()],
          list(shortcut[3]), f"{what}: times")


def check_automatic(case, ctx):
    data = build_automatic(case)
    path = ctx.write(data, "automatic")
    ctx.note(len(case["entries"]) > 1 or len(case["shortcuts"]) > 1, data,
             (case["version"], case["entries"][:1], len(case["shortcuts"])),
             labels=[f"version {case['version']}", "empty" if case["empty"] else "set"])
    for debug in (True, False):
        recorder = dt.Recorder()
        parser = jump_list.AutomaticDestinationsFile(
            debug=debug, output_writer=recorder)
        parser.Open(path)
        if debug:
            dt.pairs_equal(recorder.text, expected_automatic(case))
        for _ in range(2):
            entries = {e.identifier: e for e in parser.GetJumpListEntries()}
            sequences_equal(sorted(entries), sorted(n for n, _ in case["shortcuts"]),
                            "entries")
            for name, shortcut in case["shortcuts"]:
                shortcut_equal(entries[name], name, shortcut, f"stream {name}")
        del entries
        parser.Close()
    dt.files_unchanged(path, data)


FOOTER = b"\xab\xfb\xbf\xba"


def build_custom(case):
    data = struct.pack("<III", 2, len(case["categories"]), case["unknown"])
    for kind, value, shortcuts in case["categories"]:
        data += struct.pack("<I", kind)
        if kind == 0:
            data += struct.pack("<H", units(value)) + value.encode("utf-16-le")
        if kind == 1:
            data += struct.pack("<I", value)
        else:
            data += struct.pack("<I", len(shortcuts))
        for shortcut in shortcuts:
            data += olecf.LNK_GUID + build_shortcut(shortcut)
        data += FOOTER
    return data + case["trailing"]


def expected_custom(case):
    pairs = [("Format version", 2), ("Number of categories", len(case["categories"])),
             ("Unknown1", dt.hex8(case["unknown"]))]
    names = {0: "Custom category", 1: "Known category", 2: "User tasks"}
    shortcuts = []
    offset = 12
    for kind, value, items in case["categories"]:
        pairs.append(("Category type", f"{kind} ({names[kind]})"))
        offset += 8
        if kind == 0:
            pairs.extend([("Number of characters", units(value)),
                          ("Category name", value)])
            offset += 2 + units(value) * 2
        if kind == 1:
            pairs.append(("Category identifier", value))
        else:
            pairs.append(("Number of entries", len(items)))
        for item in items:
            offset += 16
            shortcuts.append((f"0x{offset:08x}", item))
            offset += len(build_shortcut(item))
        offset += 4
    return pairs, shortcuts


def check_custom(value, ctx):
    case, again = value
    data = build_custom(case)
    path = ctx.write(data, "custom")
    ctx.note(len(case["categories"]) > 1, data,
             [(k, v, len(s)) for k, v, s in case["categories"]],
             labels=[f"categories {len(case['categories'])}"])
    other = ctx.write(build_custom(again), "other")
    for debug in (True, False):
        recorder = dt.Recorder()
        parser = jump_list.CustomDestinationsFile(debug=debug, output_writer=recorder)
        for part, contents in ((path, case), (other, again), (path, case)):
            recorder.parts.clear()
            parser.Open(part)
            pairs, shortcuts = expected_custom(contents)
            if debug:
                dt.pairs_equal(recorder.text, pairs)
                dumps = dt.dumps(recorder.text)
                sequences_equal(
                    [d for d in dumps if d[0] in ("Signature", "Trailing data")],
                    [("Signature", FOOTER)] * len(contents["categories"]) + [
                        ("Trailing data", contents["trailing"])
                        for _ in range(bool(contents["trailing"]))], "footers")
            entries = list(parser.GetJumpListEntries())
            equal(len(entries), len(shortcuts), "number of entries")
            for entry, (identifier, shortcut) in zip(entries, shortcuts):
                shortcut_equal(entry, identifier, shortcut, f"entry {identifier}")
            parser.Close()
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, automatic, how, where = value
    automatic = dict(automatic, empty=False)
    cls = jump_list.CustomDestinationsFile
    case = dict(case, trailing=b"")
    if how == "cut" and case["categories"]:
        data = build_custom(case)
        data = data[:where % len(data)]
    elif how == "footer" and case["categories"]:
        data = bytearray(build_custom(case))
        data[-1 - where % 4] ^= 1 + where % 255
        data = bytes(data)
    elif how == "type":
        data = build_custom(case)
        data = data[:4] + struct.pack("<I", len(case["categories"]) + 1) + data[8:] + (
            struct.pack("<II", 3 + where, 0) + FOOTER)
    elif how == "entry":
        data = build_custom(case)
        data = data[:4] + struct.pack("<I", len(case["categories"]) + 1) + data[8:] + (
            struct.pack("<III", 2, 1, where) + b"\x11" * 16 + FOOTER)
    elif how == "version" and where != 2:
        data = struct.pack("<I", where) + build_custom(case)[4:]
    else:
        cls = jump_list.AutomaticDestinationsFile
        stream = dest_list(automatic)
        if how == "cut":
            # A cut on the end of the header or of an entry is a shorter list.
            ends = [32]
            for entry in automatic["entries"]:
                ends.append(ends[-1] + len(build_entry(automatic["version"], entry)))
            size = 1 + where % (len(stream) - 1)
            if size in ends:
                size -= 1
            data = olecf.write([("DestList", stream[:size])])
        elif how == "footer":
            data = olecf.write([("Destlist2", stream)])
        elif how == "type":
            data = b"\xd0\xcf\x11\xe0" + b"\0" * where
        else:
            version = 5 + where if how == "entry" else 0
            data = olecf.write([("DestList", struct.pack("<I", version) + stream[4:])])
    path = ctx.write(data, "reject")
    ctx.note(True, data, (how, where), labels=[f"{how} {cls.__name__}"])
    dt.rejected(cls, path, f"{cls.__name__} {how} {where}")


GENERATORS = {"automatic_destinations": AUTOMATIC.map(build_automatic),
              "custom_destinations": CUSTOM.map(build_custom)}
SUBTESTS = [
    SubTest("automatic destinations", AUTOMATIC, check_automatic, 700, 10000),
    SubTest("custom destinations", st.tuples(CUSTOM, CUSTOM), check_custom, 700, 10000),
    SubTest("rejected", st.tuples(
        CUSTOM, AUTOMATIC,
        st.sampled_from(["cut", "footer", "type", "entry", "version"]),
        st.integers(0, 600)), check_rejected, 300, 10000),
]
