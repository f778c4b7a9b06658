"""P47: tools that show the details of jump lists, Spotlight stores and WMI."""

import os
import re
import struct
import uuid

import dt
import jump_list_files
import olecf
import scripts
import spotlight_store
import wmi_rep_file
import wmi_repository_objects
from vf import SubTest, Violation, equal, require, sequences_equal, st

from dtformats import shell_property_keys, wmi_repository

PROPERTY = "P47"
TITLE = "The jump list, Spotlight and WMI tools show the stored items and values"
STATEMENT = (
    "For every valid file these scripts exit with 0. jump_list.py shows for every entry "
    "of an automatic or custom destinations file, in order, the times, size, strings, "
    "shell items (folders, volumes, files, network locations, control panel items and "
    "property views) with their names, identifiers, sizes, FAT times (an invalid one as "
    "hexadecimal) and extension blocks with names and file reference, and data "
    "blocks with their properties under the known name of the property key. spotlight_storedb.py shows the metadata version, number of items and "
    "properties of a store and, with --item, for every attribute it knows the stored "
    "value or (null): text between quotes, dates as YYYY-MM-DD hh:mm:ss.ffffff +0000 if "
    "they are dates, and each element of a list; for an item that does not exist it says "
    "so. wmi_repository.py shows the index keys, the namespaces sorted by path, or every "
    "instance with its system and stored properties, and in output mode debug with -d the "
    "registrations; of a single Index.btr only its keys and of a mapping file nothing.")
QUANTIFIER = "every file of these formats, all items, attributes and values"
WHY = "The scripts have no tests."
FILES = ["scripts/jump_list.py", "scripts/spotlight_storedb.py",
         "scripts/wmi_repository.py", "dtformats/output_writers.py",
         "dtformats/shell_property_keys.py"]
MECHANISM = [
    ("shell items, properties", "scripts/jump_list.py StdoutWriter"),
    ("attributes", "scripts/spotlight_storedb.py Main, TableView"),
    ("instances", "scripts/wmi_repository.py PrintInstance"),
]
OBSERVE = ["standard output and exit status of the scripts"]
TECHNIQUE = (
    "property-based testing of the tools' output against the values the file was "
    "generated from")
RULE = "two or more shortcuts, items or instances"
ASSUMPTIONS = [
    "pylnk, pyfwsi, pyfwps and pyolecf (installed C libraries) read the shortcuts",
    "property values are of the types the tool supports",
]
GENERATORS = {}

GUIDS = st.uuids()
# Time stamps in FAT format: valid, not set and not valid.
FAT = st.one_of(
    st.just(0), st.builds(
        lambda y, mo, d, h, mi, s: (h << 11 | mi << 5 | s) << 16 | y << 9 | mo << 5 | d,
        st.integers(0, 99), st.integers(1, 12), st.integers(1, 28),
        st.integers(0, 23), st.integers(0, 59), st.integers(0, 29)),
    st.sampled_from([1, 0xFFFFFFFF, 0x00210000, 31 << 0 | 2 << 5, 0xF800_0021 | 25 << 27]))


def fat_time(value):
    if not value:
        return "Not set (0)"
    date, time = value & 0xFFFF, value >> 16
    year, month, day = 1980 + (date >> 9), date >> 5 & 15, date & 31
    hours, minutes, seconds = time >> 11, time >> 5 & 63, (time & 31) * 2
    leap = year % 4 == 0 and (year % 100 or year % 400 == 0)
    days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not 1 <= month <= 12 or not 1 <= day <= days[month - 1] or hours > 23 or (
            minutes > 59 or seconds > 59):
        return f"0x{value:04x}"
    return f"{year:04d}-{month:02d}-{day:02d} {hours:02d}:{minutes:02d}:{seconds:02d}"


DELEGATE = uuid.UUID("5e591a74-df96-48d3-8d67-1733bcee28ba")
NAME = st.text("abcDEF 123._-", min_size=1, max_size=12).filter(lambda t: t.strip() == t)
# The last 2 bytes of an item can be the offset of an extension block: those of these
# values are larger than the item.
LAST_GUID = GUIDS.map(lambda value: uuid.UUID(int=value.int | 0x80))
LAST_NUMBER = st.integers(0, 0xFFFF) | st.integers(0x01000000, 0x7FFFFFFF)
ITEM = st.one_of(
    st.tuples(st.just("root"), LAST_GUID),
    st.tuples(st.just("volume"), st.sampled_from("CDEZ")))
# How an item is read can depend on the item before it: at most one of these, as the last.
LAST_ITEM = st.one_of(
    st.tuples(st.just("volume identifier"), LAST_GUID),
    st.tuples(st.just("category"), LAST_NUMBER),
    st.tuples(st.just("control panel"), LAST_GUID),
    st.tuples(st.just("network"), st.tuples(
        st.sampled_from([0x41, 0x42, 0x46, 0x47, 0xC3]), NAME, st.none() | NAME,
        st.none() | NAME)),
    st.tuples(st.just("unknown"), st.none()), st.tuples(st.just("delegate"), LAST_GUID))
# The signatures of other items, which are stored here, are larger than 0x10000000.
ITEM_SIZE = st.integers(0, 0x0FFFFFFF) | st.sampled_from(
    [0x10000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF])
FILE_ITEM = st.tuples(st.just("file"), st.fixed_dictionaries(dict(
    size=ITEM_SIZE, modified=FAT, flags=dt.u(16), name=NAME,
    extension=st.none() | st.tuples(FAT, FAT, NAME, st.sampled_from([3, 7, 8, 9]), st.one_of(
        st.integers(0, (1 << 48) - 1), st.integers((1 << 48) + 1, (1 << 64) - 1),
        st.sampled_from([0, 5, (1 << 48) - 1, (1 << 48) + 1])), st.none() | NAME))))

PROPERTY_VALUE = st.one_of(
    st.just((1, None)), st.integers(0, 0x7FFFFFFF).map(lambda v: (3, v)),
    st.integers(0, 2**63 - 1).map(lambda v: (0x14, v)),
    st.lists(dt.u(32), max_size=3).map(lambda v: (0x1013, v)), dt.u(31).map(lambda v: (0x13, v)),
    st.integers(0, 2**63 - 1).map(lambda v: (0x15, v)),
    dt.UNICODE.map(lambda v: (0x1F, v)), st.booleans().map(lambda v: (0x0B, v)),
    st.integers(0, 2**62).map(lambda v: (0x40, v)), GUIDS.map(lambda v: (0x48, v)))
KNOWN = sorted(shell_property_keys.SHELL_PROPERTY_KEYS)


@st.composite
def property_sets(draw):
    result = []
    for key in draw(st.lists(st.sampled_from(KNOWN), max_size=2, unique_by=lambda k: k[:38])):
        number = int(key.split("/")[1])
        records = [(number, draw(PROPERTY_VALUE))]
        if draw(st.booleans()):
            records.append((draw(st.integers(2, 90)), draw(PROPERTY_VALUE)))
        result.append((uuid.UUID(key[1:37]), records))
    if draw(st.booleans()):
        result.append((draw(GUIDS), [(draw(st.integers(2, 200)), draw(PROPERTY_VALUE))]))
    return result


ITEMS = st.builds(
    lambda items, last: items + last, st.lists(st.one_of(FILE_ITEM, ITEM), max_size=3),
    st.lists(st.one_of(LAST_ITEM, property_sets().map(lambda v: ("properties", v))),
             max_size=1))

BLOCK = st.one_of(
    property_sets().map(lambda v: (0xA0000009, v)),
    st.tuples(st.sampled_from([0xA0000001, 0xA0000007]), NAME),
    st.sampled_from([(2, 196), (4, 4), (5, 8), (8, 130), (11, 20), (12, 2)]).flatmap(
        lambda v: st.tuples(st.just(0xA0000000 | v[0]), st.just(b"\0\0") if v[0] == 12 else
                            st.binary(min_size=v[1], max_size=v[1]))),
    st.binary(min_size=64, max_size=64).map(
        lambda v: (0xA0000003, struct.pack("<II", 88, 0) + b"host".ljust(16, b"\0") + v)),
    st.tuples(st.just(0xA0000006), NAME),
    st.tuples(st.just(0xA0000042), st.binary(min_size=4, max_size=20)))
SHORTCUT = st.fixed_dictionaries(dict(
    times=st.tuples(dt.FILETIME, dt.FILETIME, dt.FILETIME), size=dt.u(32),
    icon=dt.u(32), show=dt.u(32), hot_key=dt.u(16), attributes=dt.u(32),
    flags=st.sampled_from([0, 0x200, 0x4000, 0x40000, 0x44200]),
    items=ITEMS, blocks=st.lists(BLOCK, max_size=3, unique_by=lambda b: b[0]),
    strings=st.tuples(*[st.none() | dt.UNICODE.filter(bool)] * 5)))


def property_value(kind, value):
    """Returns the data and the text."""
    if kind == 1:
        return b"", "<VT_NULL>"
    if kind in (3, 0x13):
        return struct.pack("<I", value), str(value)
    if kind == 0x1013:
        return struct.pack(f"<{len(value) + 1:d}I", len(value), *value), "<VT_VECTOR>"
    if kind in (0x14, 0x15):
        return struct.pack("<Q", value), str(value)
    if kind == 0x1F:
        data = (value + "\0").encode("utf-16-le")
        return (struct.pack("<I", len(data) // 2) + data).ljust(
            -(-(4 + len(data)) // 4) * 4, b"\0"), value
    if kind == 0x0B:
        return struct.pack("<HH", 0xFFFF if value else 0, 0), str(value)
    if kind == 0x40:
        return struct.pack("<Q", value), dt.filetime(value)
    return value.bytes_le, str(value)


def property_store(sets):
    data = b""
    for identifier, records in sets:
        body = b""
        for number, (kind, value) in records:
            value_data = property_value(kind, value)[0]
            body += struct.pack("<IIBHH", 13 + len(value_data), number, 0, kind, 0)
            body += value_data
        data += struct.pack("<I4s", 8 + 16 + len(body) + 4, b"1SPS")
        data += identifier.bytes_le + body + b"\0\0\0\0"
    return data + b"\0\0\0\0"


def store_pairs(sets):
    result = []
    for identifier, records in sets:
        for number, (kind, value) in records:
            key = f"{{{identifier}}}/{number}"
            known = shell_property_keys.SHELL_PROPERTY_KEYS.get(key, "Unknown")
            result.append(f"\t\tProperty: {key} ({known})")
            result.append((f"Value (0x{kind:04x})", property_value(kind, value)[1]))
    return result


def item_data(item):
    kind, value = item
    if kind == "root":
        return struct.pack("<HBB", 20, 0x1F, 0x50) + value.bytes_le
    if kind == "volume":
        body = b"\x2f" + f"{value}:\\".encode() + b"\0"
        return struct.pack("<H", 25) + body.ljust(23, b"\0")
    if kind == "volume identifier":
        return struct.pack("<HBB", 20, 0x2E, 0x80) + value.bytes_le
    if kind == "category":
        return struct.pack("<HBBII", 12, 1, 0, 0x39DE2184, value)
    if kind == "control panel":
        return struct.pack("<HBB", 30, 0x71, 0x80) + bytes(10) + value.bytes_le
    if kind == "network":
        body = value[1].encode() + b"\0"
        for text in value[2:]:
            body += text.encode() + b"\0" if text else b""
        flags = (0x80 if value[2] else 0) | (0x40 if value[3] else 0)
        return struct.pack("<HBBB", 7 + len(body), value[0], 1, flags) + body + b"\0\0"
    if kind == "unknown":
        return struct.pack("<HBBH", 16, 0x61, 0x80, 0) + b"http://x\0\0"
    if kind == "delegate":
        inner = struct.pack("<BBIIH", 0x32, 0, 77, 0, 0x20) + b"a.txt\0"
        body = struct.pack("<BBH4sH", 0x74, 0x1A, len(inner) + 6, b"CFSF", len(inner) + 2)
        body += inner + DELEGATE.bytes_le + value.bytes_le
        return struct.pack("<H", len(body) + 2) + body
    if kind == "properties":
        body = property_store(value)
        return struct.pack("<HBBHIHH", 14 + len(body), 0, 0, 10 + len(body), 0x23FEBBEE,
                           len(body), 0) + body
    name = value["name"].encode() + b"\0"
    if len(name) % 2:
        name += b"\0"
    body = struct.pack("<BBIIH", 0x32, 0, value["size"], value["modified"], value["flags"])
    body += name
    if value["extension"]:
        created, accessed, long_name, version, reference, local = value["extension"]
        start = 2 + len(body)
        text = (long_name + "\0").encode("utf-16-le")
        extension = struct.pack("<HIIIH", version, 0xBEEF0004, created, accessed, 20)
        if version >= 7:
            extension += struct.pack("<HQQ", 0, reference, 0)
        else:
            local = None
        extension += struct.pack("<H", len(text) if local else 0)
        extension += bytes({3: 0, 7: 0, 8: 4, 9: 8}[version]) + text
        if local:
            extension += (local + "\0").encode("utf-16-le")
        body += struct.pack("<H", len(extension) + 4) + extension + struct.pack("<H", start)
    return struct.pack("<H", 2 + len(body)) + body


def item_lines(item):
    kind, value = item
    if kind == "root":
        return [("Item type", "Root Folder"), ("Root shell folder identifier", str(value))]
    if kind == "volume":
        return [("Item type", "Volume"), ("Volume name", f"{value}:\\")]
    if kind == "volume identifier":
        return [("Item type", "Volume"), ("Volume identifier", str(value))]
    if kind == "category":
        return [("Item type", "Control Panel Category"),
                ("Control panel category identifier", value)]
    if kind == "control panel":
        return [("Item type", "Control Panel Item"),
                ("Control panel item identifier", str(value))]
    if kind == "network":
        return [("Item type", "Network Location"), ("Network location", value[1])] + [
            (name, text) for name, text in zip(("Description", "Comments"), value[2:]) if text]
    if kind == "unknown":
        return [("Item type", "Unknown (0x61)")]
    if kind == "delegate":
        return [("Item type", "Unknown (0x00)"), ("Delegate folder", str(value))]
    if kind == "properties":
        return [("Item type", "Users Property View")] + store_pairs(value)
    result = [("Item type", "File Entry"), ("File size", value["size"]),
              ("Modification time", fat_time(value["modified"])),
              ("File attribute flags", dt.hex8(value["flags"])), ("Name", value["name"])]
    if value["extension"]:
        created, accessed, long_name, version, reference, local = value["extension"]
        result += ["\t\tExtension block: 1", ("Signature", "0xbeef0004"),
                   ("Creation time", fat_time(created)),
                   ("Access time", fat_time(accessed)), ("Long name", long_name)]
        if local and version >= 7:
            result.append(("Localized name", local))
        if reference and version >= 7:
            result.append(("File reference", (
                f"{reference & 0xFFFFFFFFFFFF:d}-{reference >> 48:d}" if reference >> 48
                else f"0x{reference:04x}")))
    return result


BITS = (0x04, 0x08, 0x10, 0x20, 0x40)
FLAG_LINES = {
    0x01: "link target identifier", 0x04: "description string",
    0x08: "relative path string", 0x10: "working directory string",
    0x20: "command line arguments string", 0x40: "icon location string",
    0x200: "environment variables block", 0x4000: "icon location block",
    0x40000: "no distributed link tracking data block"}


def shortcut_data(s):
    flags = 0x80 | (0x01 if s["items"] else 0) | s["flags"]
    for bit, text in zip(BITS, s["strings"]):
        flags |= bit if text else 0
    data = struct.pack(
        "<I16sII3QIIIHHII", 0x4C, olecf.LNK_GUID, flags, s["attributes"], s["times"][0],
        s["times"][2], s["times"][1], s["size"], s["icon"], s["show"], s["hot_key"], 0, 0, 0)
    if s["items"]:
        items = b"".join(map(item_data, s["items"])) + b"\0\0"
        data += struct.pack("<H", len(items)) + items
    for text in s["strings"]:
        if text:
            encoded = text.encode("utf-16-le")
            data += struct.pack("<H", len(encoded) // 2) + encoded
    for signature, contents in s["blocks"]:
        if signature == 0xA0000009:
            contents = property_store(contents)
        elif isinstance(contents, str):
            contents = (contents.encode() + b"\0").ljust(260, b"\0") + (
                contents.encode("utf-16-le") + b"\0\0").ljust(520, b"\0")
        data += struct.pack("<II", len(contents) + 8, signature) + contents
    return data + b"\0\0\0\0", flags


BLOCK_NAMES = {
    0xA0000001: "Environment variables location", 0xA0000002: "Console properties",
    0xA0000003: "Distributed link tracker properties", 0xA0000004: "Console codepage",
    0xA0000005: "Special folder location", 0xA0000006: "Darwin properties",
    0xA0000007: "Icon location", 0xA0000008: "Shim layer properties",
    0xA0000009: "Metadata property store", 0xA000000B: "Known folder location",
    0xA000000C: "Shell item identifiers list"}


def shortcut_lines(s):
    _, flags = shortcut_data(s)
    result = []
    for bit, text in FLAG_LINES.items():
        if flags & bit:
            article = "an " if text[0] in "ei" else "a " if bit < 0x40000 else ""
            result.append(f"\t\tContains {article}{text}")
    result += [
        ("Number of data blocks", len(s["blocks"])),
        ("Creation time", dt.filetime(s["times"][0])),
        ("Modification time", dt.filetime(s["times"][1])),
        ("Accesss time", dt.filetime(s["times"][2])), ("File size", s["size"]),
        ("Icon index", s["icon"]), ("Show Window value", dt.hex8(s["show"])),
        ("Hot Key value", s["hot_key"]),
        ("File attribute flags", dt.hex8(s["attributes"])),
        ("Description", s["strings"][0] or ""), ("Relative path", s["strings"][1] or ""),
        ("Working directory", s["strings"][2] or ""),
        ("Icon location", s["strings"][4] or "")]
    if s["items"]:
        result.append(("Number of items", len(s["items"])))
        for number, item in enumerate(s["items"]):
            result.append(f"\t\tShell item: {number + 1}")
            result += item_lines(item)
    for number, (signature, contents) in enumerate(s["blocks"]):
        result.append(f"\tData block: {number + 1}")
        name = BLOCK_NAMES.get(signature)
        result.append(("Signature", dt.hex8(signature) + (f" ({name})" if name else "")))
        if signature == 0xA0000009:
            result += store_pairs(contents)
        elif isinstance(contents, str):
            result.append(("String", contents))
    return result


LINE = re.compile(r"^\t*([^\t\n]+?)\t+: (.*)$")
HEADINGS = ("\t\tContains", "\t\tProperty:", "\t\tExtension block", "\t\tShell item:",
            "\tData block", "Entry:")


def tool_lines(text):
    result = []
    for line in text.split("\n"):
        match = LINE.match(line)
        if match:
            result.append(match.groups())
        elif line.startswith(HEADINGS):
            result.append(line)
    return result


def normal(line):
    """The name for the access time may be spelled in another way."""
    if isinstance(line, tuple):
        return (line[0].replace("Accesss", "Access"), str(line[1]))
    return line


def jump_list_data(automatic, shortcuts, version):
    if automatic:
        return olecf.write(
            [("DestList", struct.pack("<IIIfIIII", version, 0, 0, 0.0, 0, 0, 0, 0))] + [
                (f"{n + 1:x}", shortcut_data(s)[0]) for n, s in enumerate(shortcuts)])
    return struct.pack("<IIIII", 2, 1, 0, 2, len(shortcuts)) + b"".join(
        olecf.LNK_GUID + shortcut_data(s)[0] for s in shortcuts) + jump_list_files.FOOTER


def check_jump_list(value, ctx):
    automatic, shortcuts, _ = value
    data = jump_list_data(*value)
    path = ctx.write(data, "x.automaticDestinations-ms")
    ctx.note(len(shortcuts) > 1, data, shortcuts[:1],
             labels=["automatic" if automatic else "custom"])
    expected = [("Number of entries", len(shortcuts))]
    for number, s in enumerate(shortcuts):
        expected.append(f"Entry: {number + 1}")
        expected += shortcut_lines(s)
    result = scripts.run("jump_list", path)
    equal(result.status, 0, "exit status")
    sequences_equal(list(map(normal, tool_lines(result.text))),
                    list(map(normal, expected)), "lines")


def cocoa(value):
    """The text of a date and time, or None if it is not known how it is shown."""
    if value != value or value >= 7500000000.0 or value < -6e10 or value * 4 != int(
            value * 4):
        return None
    seconds, fraction = divmod(value, 1)
    return dt.date_time_string(
        978307200 + int(seconds), int(fraction * 1000000), 6) + " +0000"


NAMES = (
    "_kMDItemDisplayNameWithExtensions", "kMDItemContentCreationDate",
    "kMDItemContentCreationDate_Ranking", "kMDItemContentModificationDate",
    "kMDItemContentModificationDate_Ranking", "kMDItemContentType",
    "kMDItemContentTypeTree", "kMDItemDateAdded", "kMDItemDateAdded_Ranking",
    "kMDItemDisplayName", "kMDItemDocumentIdentifier", "kMDItemFSContentChangeDate",
    "kMDItemFSCreationDate", "kMDItemFSCreatorCode", "kMDItemFSFinderFlags",
    "kMDItemFSHasCustomIcon", "kMDItemFSInvisible", "kMDItemFSIsExtensionHidden",
    "kMDItemFSIsStationery", "kMDItemFSLabel", "kMDItemFSName", "kMDItemFSNodeCount",
    "kMDItemFSOwnerGroupID", "kMDItemFSOwnerUserID", "kMDItemFSSize",
    "kMDItemFSTypeCode", "kMDItemInterestingDate_Ranking", "kMDItemKind",
    "kMDItemLogicalSize", "kMDItemPhysicalSize")
LOOKUP = spotlight_store.STORED_NAMES


def check_value(shown, kind, value, name):
    if isinstance(value, list) and kind in (11, 12):
        rest = shown
        for item in value:
            text = f'"{item}"' if kind == 11 else cocoa(item)
            if text is not None:
                require(text in rest, f"{name}: {text!r} is not in {shown!r}")
                rest = rest.partition(text)[2]
        return
    if kind == 11:
        equal(shown, f'"{value}"', name)
    elif kind == 12:
        text = cocoa(value)
        if text is not None:
            equal(shown, text, name)
    elif isinstance(value, list):
        rest = shown
        for item in value:
            text = repr(item) if repr(item) in rest else str(item)
            require(text in rest, f"{name}: {item!r} is not in {shown!r}")
            rest = rest[rest.index(text) + len(text):]
    else:
        equal(shown, str(value), name)


def check_spotlight(case, ctx):
    files = {}
    data = spotlight_store.build(case, files)
    items = {i["identifier"]: i for page in case["pages"] for i in page[0]}
    with ctx.directory() as directory:
        for name, content in list(files.items()) + [("store.db", data)]:
            with open(os.path.join(directory, name), "wb") as file_object:
                file_object.write(content)
        path = os.path.join(directory, "store.db")
        shown = any(LOOKUP.get(n, n) in i["attributes"] for i in items.values()
                    for n in NAMES)
        ctx.note(len(items) > 1 and shown, data, sorted(items))
        result = scripts.run("spotlight_storedb", path)
        equal(result.status, 0, "exit status")
        attributes = items[1]["attributes"] if 1 in items else {}
        number = attributes.get("_kStoreMetadataVersion", (2, 0, None))[2]
        version = "" if number is None else f"{number >> 16}.{number & 0xffff}"
        text = ("Apple Spotlight database information:\nMetadata version:\t\t"
                f"{version}\nNumber of metadata items:\t{len(items)}\n\n")
        properties = attributes.get("kMDStoreProperties", (14, 0, b""))[2]
        if properties:
            text += f"Properties:\n{properties.decode()}\n"
        equal(result.text, text, "output")
        for identifier, item in items.items():
            if identifier > 0x7FFFFFFFFFFFFFFF:
                continue
            result = scripts.run("spotlight_storedb", "--item", identifier, path)
            equal(result.status, 0, "exit status")
            rows = {}
            for line in result.text.split("\n"):
                match = re.match(r"^(\w+)\t+= (.*)$", line, re.DOTALL)
                if match:
                    rows[match.group(1)] = match.group(2)
            for name in NAMES:
                stored = item["attributes"].get(LOOKUP.get(name, name))
                if not name in rows:
                    raise Violation(f"{name} not shown")
                if stored is None:
                    equal(rows[name], "(null)", name)
                else:
                    check_value(rows[name], stored[0], stored[2], name)
        missing = max([i for i in items if i < 2**62], default=0) + 1
        result = scripts.run("spotlight_storedb", "--item", missing, path)
        equal((result.status, result.text), (0, f"No such metadata item: {missing}\n"),
              "output for an item that does not exist")


def instance_text(instance):
    name = instance.properties.get("Name")
    relative = f'{instance.class_name}.Name="{name}"' if name else (
        f"{instance.class_name}=@")
    namespace = instance.namespace or "ROOT"
    pairs = [
        ("__GENUS", "2"), ("__CLASS", instance.class_name),
        ("__SUPERCLASS", instance.super_class_name or ""),
        ("__DYNASTY", instance.dynasty or ""), ("__RELPATH", relative),
        ("__PROPERTY_COUNT", len(instance.properties)),
        ("__DERIVATION", "{" + ", ".join(instance.derivation) + "}"), ("__SERVER", "."),
        ("__NAMESPACE", namespace), ("__PATH", f"\\\\.\\{namespace}:{relative}")]
    for key in sorted(instance.properties):
        value = instance.properties[key]
        pairs.append((key, "" if value is None else value))
    width = max(len(key) for key, _ in pairs)
    return "".join(f"{key.ljust(width)} : {value}\n" for key, value in pairs) + "\n"


def check_wmi_directory(path, named=True):
    repository = wmi_repository.CIMRepository()
    repository.Open(path)
    try:
        instances = list(repository.GetInstances())
        namespaces = sorted(
            entry.namespace for entry in repository.GetNamespaces()) if named else None
        keys = list(repository.GetIndexKeys())
    finally:
        repository.Close()
    for arguments, text in (
            (["--output_mode", "index"], "".join(key + "\n" for key in keys)),
            (["--output_mode", "namespaces"], "".join(n + "\n" for n in namespaces or [])),
            ([], "".join(map(instance_text, instances)))):
        if arguments[1:] == ["namespaces"] and not named:
            continue
        result = scripts.run("wmi_repository", *arguments, path)
        equal((result.status, result.text), (0, text), f"output with {arguments}")
    return instances


def wmi_debug_lines(path, mode):
    """The lines of the library and those of the tool itself."""
    recorder = dt.Recorder()
    repository = wmi_repository.CIMRepository(debug=True, output_writer=recorder)
    repository.Open(path)
    try:
        if mode == "index":
            for key in repository.GetIndexKeys():
                recorder.WriteText(f"{key}\n")
        elif mode == "instances":
            for instance in repository.GetInstances():
                recorder.WriteText(instance_text(instance))
        elif mode == "namespaces":
            for name in sorted(entry.namespace for entry in repository.GetNamespaces()):
                recorder.WriteText(f"{name}\n")
        else:
            for key in repository.GetIndexKeys():
                if key.split("\\")[-1].startswith("R_") and "." in key:
                    record = repository.GetObjectRecordByKey(key)
                    wmi_repository.Registration(
                        debug=True, output_writer=recorder).ReadObjectRecord(record.data)
    finally:
        repository.Close()
    return recorder.text


def check_wmi_modes(case, ctx):
    model, mode = case
    files, _, _ = wmi_repository_objects.build(model)
    with ctx.directory() as root:
        wmi_repository_objects.write_files(root, files, model["case"])
        expected = wmi_debug_lines(root, mode)
        registrations = expected.count("R_")
        ctx.note(registrations > 0, repr(case), mode, labels=[mode])
        result = scripts.run("wmi_repository", "-d", "--output-mode", mode, root)
        equal(result.status, 0, "exit status with debug")
        equal(sorted(result.text.split("\n")), sorted(expected.split("\n")),
              f"lines of debug output with {mode:s}")
        if mode == "debug":
            result = scripts.run("wmi_repository", "--output_mode", mode, root)
            equal((result.status, result.text), (0, ""), "output of mode debug")
        repository = wmi_repository.CIMRepository()
        repository.Open(root)
        try:
            keys = "".join(f"{key}\n" for key in repository.GetIndexKeys())
        finally:
            repository.Close()
        for name in files:
            path = os.path.join(
                root, wmi_repository_objects.FILENAMES[model["case"]](name))
            if name.lower().endswith(".map") or name.lower() == "index.btr":
                arguments = ["--output_mode", mode] if registrations % 2 else []
                result = scripts.run("wmi_repository", *arguments, path)
                text = keys if name.lower() == "index.btr" else ""
                equal((result.status, result.text), (0, text), f"output for {name:s}")


def check_wmi(model, ctx):
    files, _, _ = wmi_repository_objects.build(model)
    with ctx.directory() as root:
        wmi_repository_objects.write_files(root, files, model["case"])
        instances = check_wmi_directory(root)
        ctx.note(len(instances) > 1, repr(model), [i.class_name for i in instances])


def check_wmi_rep(model, ctx):
    data = wmi_rep_file.build(model)[1]
    with ctx.directory() as root:
        path = os.path.join(root, "cim.rep")
        with open(path, "wb") as file_object:
            file_object.write(data)
        instances = check_wmi_directory(path, model["namespaces"])
        ctx.note(len(instances) > 1, data, [i.class_name for i in instances])


SUBTESTS = [
    SubTest("jump_list", st.tuples(
        st.booleans(), st.lists(SHORTCUT, max_size=3), st.integers(1, 4)),
        check_jump_list, 500, 5000),
    SubTest("spotlight", spotlight_store.store(), check_spotlight, 120, 4000),
    SubTest("wmi", wmi_repository_objects.repository(), check_wmi, 60, 2000),
    SubTest("wmi modes", st.tuples(
        wmi_repository_objects.repository(),
        st.sampled_from(["debug", "index", "instances", "namespaces"])),
            check_wmi_modes, 25, 1000),
    SubTest("wmi cim.rep", wmi_rep_file.model_strategy(), check_wmi_rep, 60, 2000),
]
