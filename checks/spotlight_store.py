"""P34: Apple Spotlight store databases."""

import os
import struct
import zlib

import lz4.block

import dt
from vf import SubTest, Violation, equal, require, sequences_equal, st

from dtformats import errors, spotlight_storedb

PROPERTY = "P34"
TITLE = "Spotlight store: metadata items have every attribute and value stored"
STATEMENT = (
    "For every Apple Spotlight store database the metadata items are those of the data "
    "records in the pages that the map refers to (uncompressed, zlib compressed, or "
    "LZ4 compressed in one or more blocks), the last record of an identifier counting, "
    "and GetMetadataItemByIdentifier returns the item with its identifiers, last update "
    "time and all of its attributes: variable size integers, bytes, floating-point "
    "values, strings, binary data and references to values, lists and localized strings, "
    "as single value or as all the values of a multi-value, as defined by the metadata "
    "attribute tables, whether these are stored in (chains of) property pages or in "
    "the dbStr-#.map streams map files; None is returned for an unknown identifier. "
    "Debug mode prints the stored values of the header, map, pages, records and "
    "attributes. Data that ends early, is not "
    "compressed data or has pages that refer to each other is a parse error.")
QUANTIFIER = ("every set of records, attribute types and values, compression, block and "
              "page layout, mix of property pages and streams maps, size of integer")
WHY = ("The tests read variable size integers only; there is no store database in the "
       "test data.")
FILES = ["dtformats/spotlight_storedb.py", "dtformats/spotlight_storedb.yaml",
         "dtformats/spotlight_storedb.debug.yaml"]
MECHANISM = [
    ("integers", "SpotlightStoreDatabaseFile._ReadVariableSizeInteger"),
    ("records", "_ReadRecordPageValues, _ReadRecord, _ReadMetadataAttribute"),
    ("compression", "_ReadRecordPage, _DecompressLZ4PageData"),
    ("tables", "_ReadPropertyPages, _ReadIndexPageValues, _ReadStreamsMap"),
]
OBSERVE = ["number_of_metadata_items and GetMetadataItemByIdentifier",
           "ranges and stream_values of the streams map files", "debug output",
           "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more items of which one has two or more attributes"
ASSUMPTIONS = ["keys of attribute types are unique",
               "an attribute that consists of the remaining data "
               "(kMDStoreAccumulatedSizes) is the last of its record"]

BLOCK = 4096


@st.composite
def varint(draw, maximum=(1 << 64) - 1):
    """Returns (value, encoded) in any size that can hold it."""
    size = draw(st.integers(0, 8))
    bits = 7 - size + 8 * size if size <= 4 else 8 * size
    value = draw(dt.u(64))
    value = value & ((1 << bits) - 1) if value >= (1 << bits) else value
    value %= maximum + 1
    return value, encode(value, size)


def encode(value, size=None):
    """Encodes a variable size integer using size additional bytes."""
    if size is None:
        size = 0
        while value >= 1 << (7 - size + 8 * size if size <= 4 else 8 * size):
            size += 1
    data = value.to_bytes(size + 1, "big")
    prefix = (0xFF00 >> size) & 0xFF
    return bytes([prefix | data[0]]) + data[1:]


VARINT = varint()
TEXT = st.text(alphabet=st.characters(
    min_codepoint=0x20, max_codepoint=0x2FFF, exclude_categories=("Cs", "Cc", "Zl",
                                                                  "Zp")), max_size=10)
LOCALIZED = st.one_of(TEXT, st.lists(TEXT, min_size=2, max_size=3).map("\x16\x02".join))
FLOAT = st.one_of(
    st.sampled_from([0.0, 1.5, -2.25, 7.4e9, 7.5e9, 1e300, float("inf"), float("nan")]),
    st.floats(), st.floats(-1e9, 1e9), st.integers(-10 ** 10, 10 ** 10).map(
        lambda v: v / 4))
FLOAT32 = st.one_of(st.floats(width=32), st.floats(-1000, 1000, width=32))
# Attributes that the script shows and the type some of them have.
SHOWN = (
    "kMDStoreProperties", "_kStoreMetadataVersion", "_kMDItemDisplayNameWithExtensions",
    "kMDItemContentCreationDate", "kMDItemContentTypeTree", "kMDItemDateAdded",
    "_kMDItemContentChangeDate", "_kMDItemFileName", "_kMDItemOwnerUserID",
    "kMDItemFSSize", "kMDItemKind", "kMDItemFSName", "_kMDItemCreatorCode",
    "kMDItemContentCreationDate_Ranking", "kMDItemContentModificationDate",
    "kMDItemContentModificationDate_Ranking", "kMDItemContentType",
    "kMDItemDateAdded_Ranking", "kMDItemDisplayName", "kMDItemDocumentIdentifier",
    "_kMDItemCreationDate", "_kMDItemFinderFlags", "kMDItemFSHasCustomIcon",
    "kMDItemFSInvisible", "_kMDItemIsExtensionHidden", "kMDItemFSIsStationery",
    "_kMDItemFinderLabel", "_kMDItemNodeCount", "_kMDItemOwnerGroupID",
    "kMDItemFSTypeCode", "kMDItemInterestingDate_Ranking", "kMDItemLogicalSize",
    "kMDItemPhysicalSize", "kMDItemFSLabel", "kMDItemFSNodeCount")
# Attributes that the script shows under another name than they are stored under.
STORED_NAMES = {
    "kMDItemFSContentChangeDate": "_kMDItemContentChangeDate",
    "kMDItemFSCreationDate": "_kMDItemCreationDate",
    "kMDItemFSCreatorCode": "_kMDItemCreatorCode",
    "kMDItemFSFinderFlags": "_kMDItemFinderFlags",
    "kMDItemFSIsExtensionHidden": "_kMDItemIsExtensionHidden",
    "kMDItemFSLabel": "_kMDItemFinderLabel", "kMDItemFSName": "_kMDItemFileName",
    "kMDItemFSNodeCount": "_kMDItemNodeCount",
    "kMDItemFSOwnerGroupID": "_kMDItemOwnerGroupID",
    "kMDItemFSOwnerUserID": "_kMDItemOwnerUserID"}
FIXED = {"kMDStoreProperties": (14, 0), "_kStoreMetadataVersion": (2, 0)}
KINDS = (0, 2, 6, 7, 8, 9, 10, 11, 11, 12, 14, 15, 15)


@st.composite
def tables(draw):
    values = draw(st.dictionaries(
        st.integers(1, 30) if draw(st.booleans()) else st.one_of(st.integers(1, 30), dt.u(32)),
        LOCALIZED, max_size=6))
    known = sorted(values) or [1]
    index = st.one_of(st.sampled_from(known), st.integers(0, 40))
    lists = draw(st.dictionaries(
        st.integers(1, 200), st.tuples(
            st.lists(index, max_size=5), st.integers(0, 3)), max_size=4))
    localized = draw(st.dictionaries(
        st.integers(1, 200), st.tuples(
            st.lists(index, max_size=3), st.integers(0, 3)), max_size=4))
    names = draw(st.lists(st.one_of(
        st.text("abcXYZ_0", min_size=1, max_size=12).map(lambda t: "kMDItem" + t),
        st.just("kMDStoreAccumulatedSizes"), st.sampled_from(SHOWN), st.sampled_from(SHOWN)),
        unique=True, max_size=8))
    types = []
    number = 0
    for name in names:
        number += draw(st.one_of(st.integers(1, 3), st.integers(1, 400)))
        types.append((number, draw(st.sampled_from(KINDS)),
                      draw(st.sampled_from([0, 1, 2, 3, 3, 0x0C, 0x0E, 0x12, 0x43])), name))
    types = [t[:1] + FIXED.get(t[3], t[1:3]) + t[3:] for t in types]
    types.sort(key=lambda t: t[3] == "kMDStoreAccumulatedSizes")
    types = [(n,) + t[1:] for n, t in zip(sorted(t[0] for t in types), types)]
    return dict(values=values, lists=lists, localized=localized, types=types)


@st.composite
def attribute(draw, table, kind, flags, name):
    """Returns (expected value, data, [(label, value)] of the debug output)."""
    multi = bool(flags & 2)
    if name == "kMDStoreAccumulatedSizes":
        data = draw(st.binary(min_size=1, max_size=20))
        return data, data, []
    if name == "kMDStoreProperties":
        value = draw(TEXT).encode()
        return value, encode(len(value)) + value, [("Data size", len(value))]
    if kind in (0, 2, 6):
        value, data = draw(VARINT)
        if kind == 0:
            return value, data, [("Integer", value), ("Boolean", bool(value))]
        return value, data, [("Integer", dt.hex8(value))]
    if kind == 7:
        if not multi:
            value, data = draw(VARINT)
            return value, data, [("Integer", value)]
        items = draw(st.lists(VARINT, max_size=5))
        data = b"".join(i[1] for i in items)
        return [i[0] for i in items], encode(len(data)) + data, [
            ("Data size", len(data))] + [
                (f"Integer: {n}", i[0]) for n, i in enumerate(items)]
    if kind == 8:
        if not multi:
            value = draw(st.integers(0, 255))
            return value, bytes([value]), [("Byte", value)]
        data = draw(st.binary(min_size=1, max_size=6))
        return list(data), encode(len(data)) + data, [("Data size", len(data))] + [
            (f"Byte: {n}", i) for n, i in enumerate(data)]
    if kind in (9, 10, 12):
        code, item = ("f", FLOAT32) if kind == 9 else ("d", FLOAT)
        if not multi:
            value = draw(item)
            return value, struct.pack("<" + code, value), [
                floating(kind, "", value)]
        items = draw(st.lists(item, min_size=1, max_size=4))
        data = struct.pack(f"<{len(items)}{code}", *items)
        return items, encode(len(data)) + data, [("Data size", len(data))] + [
            floating(kind, f": {n}", i) for n, i in enumerate(items)]
    if kind == 11:
        strings = draw(st.lists(LOCALIZED, min_size=1, max_size=4))
        data = b"".join(s.encode() + b"\0" for s in strings)
        pairs = [("Data size", len(data))]
        data = encode(len(data)) + data
        if flags & 3 == 2:
            return strings, data, pairs + [
                (f"String: {n}", s) for n, s in enumerate(strings)]
        value = strings[0]
        if flags & 3 == 3:
            value = value.split("\x16\x02")[0]
        return value, data, pairs + [("String", value)]
    if kind == 14:
        value = draw(st.binary(max_size=150))
        return value, encode(len(value)) + value, [("Data size", len(value))]
    number = draw(st.one_of(
        st.sampled_from(sorted(table["values"]) or [1]),
        st.sampled_from(sorted(table["lists"]) or [1]),
        st.sampled_from(sorted(table["localized"]) or [1]), st.integers(0, 40)))
    if flags & 3 == 3:
        names = [table["values"].get(i, "") for i in table["localized"].get(
            number, ([],))[0]]
        value = names[0].split("\x16\x02")[0] if names else "(null)"
        label = "Localized string"
        pairs = [("Localized strings table index", number)]
    elif flags & 3 == 2:
        value = [table["values"].get(i, "") for i in table["lists"].get(number, ([],))[0]]
        label = "Values list"
        pairs = [("Values list table index", number)]
    else:
        value = table["values"].get(number, "(null)")
        label = "Value"
        pairs = [("Values table index", number)]
    return value, encode(number), pairs + [(label, value)]


def floating(kind, suffix, value):
    if kind == 12 and value < 7500000000.0:
        if value == 0:
            return f"Date and time{suffix}", "Not set (0)"
        if value >= -1e10 and value * 4 == int(value * 4):
            seconds, fraction = divmod(value, 1)
            return f"Date and time{suffix}", (dt.date_time_string(
                978307200 + int(seconds), int(fraction * 1000000), 6) + " UTC")
        return f"Date and time{suffix}", None
    return f"Floating-point{suffix}", f"{value:f}"


@st.composite
def item(draw, table):
    chosen = [t for t in table["types"] if draw(st.integers(0, 2))]
    data, expected, pairs, last = b"", {}, [], 0
    for number, (index, kind, flags, name) in enumerate(chosen):
        value, encoded, values = draw(attribute(table, kind, flags, name))
        data += encode(index - last) + encoded
        expected[name] = (kind, flags, value)
        pairs.extend([
            (f"Relative metadata attribute: {number} type index", index - last),
            (f"Metadata attribute: {number} type index", index), ("Key name", name),
            ("Property type", dt.hex2(flags)), ("Value type", dt.hex2(kind))])
        pairs.extend(values)
        last = index
    numbers = [draw(VARINT) for _ in range(3)]
    time = draw(st.one_of(st.just((0, b"\0")), dt.POSIX_SECONDS.map(
        lambda s: (s * 1000000 + 123456, encode(s * 1000000 + 123456)))))
    numbers[2] = time
    identifier = draw(st.one_of(
        st.integers(0, 12).map(lambda v: (v, encode(v))), VARINT))
    flags = draw(st.integers(0, 255))
    data = (identifier[1] + bytes([flags]) + b"".join(n[1] for n in numbers) + data)
    return dict(data=data, attributes=expected, pairs=pairs, flags=flags,
                identifier=identifier[0], numbers=[n[0] for n in numbers])


@st.composite
def store(draw, streams=True):
    table = draw(tables())
    items = draw(st.lists(item(table), max_size=6))
    pages, rest = [], list(items)
    while rest or not draw(st.integers(0, 3)):
        count = draw(st.integers(0, 3))
        compression = draw(st.sampled_from(["none", "zlib", "lz4", "zlib flag"]))
        pages.append((rest[:count], compression,
                      draw(st.lists(st.tuples(st.integers(0, 200), st.booleans()),
                                    max_size=3)), draw(st.booleans())))
        rest = rest[count:]
        if len(pages) > 9:
            pages.append((rest, "none", [], False))
            break
    return dict(
        table=table, pages=pages,
        streams=draw(st.lists(st.booleans(), min_size=5, max_size=5))
        if streams else [False] * 5,
        per_page=draw(st.integers(1, 4)), per_map=draw(st.integers(1, 4)),
        header=draw(st.tuples(*[dt.u(32)] * 8)), path=draw(st.text(
            "abc/XYZ. é", max_size=40)),
        page_size=draw(st.sampled_from([4096, 4096, 8192])),
        gap=draw(st.sampled_from([0, 0, 1])), backward=draw(st.booleans()),
        unknown=draw(dt.u(64)), first=draw(st.binary(max_size=5)),
        level=draw(st.sampled_from([-1, -1, 0, 1, 5, 9])), relative=draw(st.booleans()),
        others=draw(st.dictionaries(st.integers(1, 200), st.tuples(
            st.lists(st.integers(0, 40), max_size=3), st.integers(0, 3)), max_size=3)),
        small=draw(st.booleans()), skip=draw(st.booleans()), trailing=draw(st.sampled_from([b"", b"tail"])))


def pad(data, size):
    assert len(data) <= size, (len(data), size)
    return data + b"\0" * (size - len(data))


def property_pages(kind, entries, case):
    """Returns the page data [(values, used size)] of a table."""
    groups = [entries[i:i + case["per_page"]]
              for i in range(0, len(entries), case["per_page"])] or [[]]
    return [(kind, b"".join(g)) for g in groups]


def index_entry(number, entry):
    indexes, padding = entry
    data = b"\xAA" * padding + struct.pack(f"<{len(indexes)}I", *indexes)
    return struct.pack("<I", number) + encode(len(data)) + data


def compress(data, compression, splits, level=-1):
    if compression == "none":
        return data, 0x09
    if compression.startswith("zlib"):
        return zlib.compress(data, level), 0x5009 if compression.endswith("flag") else 0x09
    blocks, at = [], 0
    for size, stored in list(splits) + [(len(data), False)]:
        blocks.append((data[at:at + size], stored))
        at += size
    result, previous = b"", None
    for block, stored in blocks:
        if not block:
            continue
        if stored:
            result += b"bv4-" + struct.pack("<I", len(block)) + block
        else:
            packed = lz4.block.compress(block, store_size=False, dict=previous or b"")
            result += b"bv41" + struct.pack("<II", len(block), len(packed)) + packed
        previous = block
    if not result:
        result = b"bv4-" + struct.pack("<I", 0)
    return result + b"bv4$", 0x1009


def build(case, files=None, expected=None):
    """Returns the store; adds the streams map files to files."""
    files = {} if files is None else files
    note = expected.append if expected is not None else lambda pair: None
    table = case["table"]
    value_streams = {
        1: [(t[0], bytes(t[1:3]) + t[3].encode() + b"\0") for t in table["types"]],
        2: [(i, n.encode() + b"\0") for i, n in sorted(table["values"].items())]}
    entries = {
        1: (0x11, [struct.pack("<I", i) + d for i, d in value_streams[1]]),
        2: (0x21, [struct.pack("<I", i) + d for i, d in value_streams[2]]),
        3: (0x41, []),
        4: (0x81, [index_entry(*i) for i in table["lists"].items()]),
        5: (0x81, [index_entry(*i) for i in table["localized"].items()])}
    streams = dict(zip(range(1, 6), case["streams"]))
    if streams[2] and table["values"] and max(table["values"]) > 40:
        streams[2] = False
    if streams[1] and table["types"] and max(t[0] for t in table["types"]) > 200:
        streams[1] = False
    for number in range(1, 6):
        if streams[number]:
            write_streams(number, case, value_streams, files)
    # Number the blocks: header, map pages, property pages, record pages.
    size = case["page_size"]
    step = size // BLOCK + case["gap"]
    pages = case["pages"]
    maps = [pages[i:i + case["per_map"]] for i in range(0, len(pages), case["per_map"])]
    block = 1 + len(maps)
    heads, chains = [], []
    for number in range(1, 6):
        if streams[number]:
            heads.append(0)
            continue
        chain = property_pages(*entries[number], case)
        numbers = [block + i * step for i in range(len(chain))]
        if case["backward"]:
            numbers.reverse()
        block += len(chain) * step
        heads.append(numbers[0])
        chains.append((number, list(zip(numbers, numbers[1:] + [0], chain))))
    records = []
    for page in pages:
        records.append((block, page))
        block += step
    output = bytearray(block * BLOCK)

    def put(offset, data):
        output[offset:offset + len(data)] = data

    head = case["header"]
    map_size = len(maps) * BLOCK
    put(0, b"8tsd" + struct.pack("<11I", *head, BLOCK, map_size, size)
        + struct.pack("<5I", *heads) + bytes(range(256))
        + pad(case["path"].encode()[:255] if case["path"].isascii()
              else case["path"].encode(), 256))
    for name, value in zip(["Flags"] + [f"Unknown{i}" for i in range(1, 8)], head):
        note((name, dt.hex8(value)))
    for pair in [("Map offset", dt.hex8(BLOCK)), ("Map size", map_size),
                 ("Page size", size)]:
        note(pair)
    for name, value in zip(
            ("types", "values", None, "lists", "localized strings"), heads):
        note((f"Metadata {name} block number" if name
              else "Unknown values 0x41 block number", value))
    note(("Path", case["path"]))
    at = 0
    for index, group in enumerate(maps):
        values = b"".join(
            struct.pack("<QII", case["unknown"], records[at + i][0], size)
            for i in range(len(group)))
        put((1 + index) * BLOCK, b"12"[index % 2:index % 2 + 1] + b"mbd" + struct.pack(
            "<IIII", BLOCK, len(group), 7, 8) + values)
        for pair in [("Page size", BLOCK), ("Number of map values", len(group)),
                     ("Unknown1", dt.hex8(7)), ("Unknown2", dt.hex8(8))]:
            note(pair)
        for i in range(len(group)):
            note(("Unknown1", dt.hex8(case["unknown"])))
            note(("Block number", records[at + i][0]))
            note(("Unknown2", dt.hex8(size)))
        at += len(group)
    for number, chain in chains:
        entry = 0
        for block, following, (kind, values) in chain:
            put(block * BLOCK, b"2pbd" + struct.pack(
                "<IIII", size, 32 + len(values), kind, 0)
                + struct.pack("<IQ", following, case["unknown"]) + values)
            page_notes(note, block, size, 32 + len(values), kind, 0)
            note(("Next block number", following))
            note(("Unknown1", dt.hex8(case["unknown"])))
            del entry
            entry = 0
            if kind in (0x11, 0x21):
                table_notes(note, kind, values)
            elif kind == 0x81:
                index_notes(note, values, table)
    for block, (items, compression, splits, flag) in records:
        data = b"".join(struct.pack("<I", len(i["data"])) + i["data"] for i in items)
        packed, kind = compress(data, compression, splits, case["level"])
        if flag:
            kind |= 0x4000
            if kind & 0x1000 == 0:
                kind = 0x4009
        put(block * BLOCK, b"2pbd" + struct.pack(
            "<IIII", size, 20 + len(packed), kind,
            0 if compression == "none" else 20 + len(data)) + packed)
        assert len(packed) + 20 <= size
        page_notes(note, block, size, 20 + len(packed), kind,
                   0 if compression == "none" else 20 + len(data))
        offset = 20
        for i in items:
            for pair in record_notes(i, offset):
                note(pair)
            offset += 4 + len(i["data"])
    return bytes(output)


def page_notes(note, block, size, used, kind, uncompressed):
    for pair in [("Block number", block), ("Page number", block * BLOCK // size),
                 ("Page size", size), ("Used page size", used),
                 ("Property table type", dt.hex8(kind)),
                 ("Uncompressed page size", uncompressed)]:
        note(pair)


def table_notes(note, kind, values):
    at = 0
    while at < len(values):
        note(("Table index", struct.unpack_from("<I", values, at)[0]))
        at += 4
        if kind == 0x11:
            note(("Value type", dt.hex2(values[at])))
            note(("Property type", dt.hex2(values[at + 1])))
            at += 2
        end = values.index(b"\0", at)
        note(("Key name" if kind == 0x11 else "Value name", values[at:end].decode()))
        at = end + 1


def index_notes(note, values, table):
    at = 0
    while at < len(values):
        note(("Table index", struct.unpack_from("<I", values, at)[0]))
        size = values[at + 4]
        at += 5
        count = size // 4
        note(("Index size", count * 4))
        at += size % 4
        indexes = struct.unpack_from(f"<{count}I", values, at)
        note(("Index values", ", ".join(str(i) for i in indexes)))
        at += 4 * count
        for index in indexes:
            note((f"Value: {index}", table["values"].get(index, "")))


def record_notes(i, offset):
    first, second = ("Identifier" if i["identifier"] <= 1 else "File system identifier",
                     "Parent identifier" if i["numbers"][1] <= 1
                     else "Parent file system identifier")
    return [("Record data offset", dt.hex8(offset)),
            ("Record data size", len(i["data"])), (first, i["identifier"]),
            ("Flags", dt.hex2(i["flags"])), ("Item identifier", dt.hex2(i["numbers"][0])),
            (second, i["numbers"][1]),
            ("Last update time", dt.posix_us(i["numbers"][2]))]


def write_streams(number, case, value_streams, files):
    if number in (1, 2):
        entries = {i: encode(len(d)) + d for i, d in value_streams[number]}
        # An entry of which the size does not match its data is not used.
        default = encode(9) + b"x" if not case["small"] else encode(3) + b"\x0b\0a\0b\0"
    else:
        source = {3: case["others"], 4: case["table"]["lists"], 5: case["table"]["localized"]}[number]
        entries = {}
        for index, (indexes, padding) in source.items():
            data = b"\xAA" * padding + struct.pack(f"<{len(indexes)}I", *indexes)
            entries[index] = encode(case["unknown"] % 300) + encode(len(data)) + data
        default = b"\0\0"
    streams = [case["first"]]
    streams.extend(entries.get(i, default) for i in range(1, max(entries, default=0) + 1))
    offsets, data = [], b""
    for stream in streams:
        offsets.append(len(data))
        data += stream
    head = (1, 2, 3, len(data), 50, len(offsets), len(data), 50, len(offsets), 4, 5, 6)
    files[f"dbStr-{number}.map.header"] = b"\0PataD\0\0" + struct.pack("<12I", *head)
    files[f"dbStr-{number}.map.offsets"] = struct.pack(
        f"<{len(offsets)}I", *offsets) + case["trailing"]
    files[f"dbStr-{number}.map.data"] = data + case["trailing"]


def same(actual, expected):
    if isinstance(expected, list):
        actual = list(actual)
        return len(actual) == len(expected) and all(map(same, actual, expected))
    if isinstance(expected, float):
        return struct.pack("<d", actual) == struct.pack("<d", expected) or (
            expected != expected and actual != actual)
    return type(actual) is type(expected) and actual == expected


def check_items(parser, case):
    items = {}
    for page in case["pages"]:
        for i in page[0]:
            items[i["identifier"]] = i
    equal(parser.number_of_metadata_items, len(items), "number of metadata items")
    for identifier, i in items.items():
        actual = parser.GetMetadataItemByIdentifier(identifier)
        require(actual is not None, f"item {identifier} not found")
        equal((actual.identifier, actual.item_identifier, actual.parent_identifier,
               actual.last_update_time), (identifier, *i["numbers"]), "item")
        sequences_equal(sorted(actual.attributes), sorted(i["attributes"]), "attributes")
        for name, (kind, flags, value) in i["attributes"].items():
            found = actual.attributes[name]
            equal((found.key, found.value_type, found.property_type),
                  (name, kind, flags), "attribute")
            if not same(found.value, value):
                raise Violation(f"value of type {kind}/{flags}: expected {value!r} but "
                                f"got {found.value!r}")
    missing = max(items, default=0) + 1
    equal(parser.GetMetadataItemByIdentifier(missing), None, "unknown identifier")
    return items


def has_streams(case):
    return any(case["streams"])


def check_store(case, ctx):
    pairs, files = [], {}
    data = build(case, files, pairs)
    with ctx.directory() as directory:
        for name, content in files.items():
            with open(os.path.join(directory, name), "wb") as file_object:
                file_object.write(content)
        path = os.path.join(directory, "store.db")
        with open(path, "wb") as file_object:
            file_object.write(data)
        count = sum(len(p[0]) for p in case["pages"])
        ctx.note(count > 1 and any(
            len(i["attributes"]) > 1 for p in case["pages"] for i in p[0]), data,
                 [(p[1], [i["attributes"] for i in p[0]]) for p in case["pages"]],
                 labels=[f"compression {p[1]}" for p in case["pages"]]
                 + ["streams" if files else "pages"])
        for debug in (False, True):
            recorder = dt.Recorder()
            parser = spotlight_storedb.SpotlightStoreDatabaseFile(
                debug=debug, output_writer=recorder)
            for _ in range(2):
                recorder.parts.clear()
                parser.Open(os.path.relpath(path) if case["relative"] else path)
                text = recorder.text
                items = check_items(parser, case)
                parser.Close()
        dt.files_unchanged(path, data)
    # The identifiers and attributes of the items follow the pages.
    skipped = files
    del skipped
    if files:
        labels = {"Table index", "Index size", "Index values", "Unknown1", "Key name",
                  "Value type", "Property type", "Value name", "Data size", "Padding"}
        pairs = [p for p in pairs if p[0] not in labels and not p[0].startswith(
            "Value: ")]
    else:
        labels = set()
    for identifier in sorted(items):
        i = items[identifier]
        offset = 20
        for page in case["pages"]:
            position = 20
            for other in page[0]:
                if other is i:
                    offset = position
                position += 4 + len(other["data"])
        pairs.append(("Record data offset", dt.hex8(offset)))
        pairs.append(("Record data size", len(i["data"])))
        pairs.extend(p for p in i["pairs"] if p[0] not in labels)
    actual = [p for p in dt.values(text) if p[0] in {q[0] for q in pairs}]
    for index, (a, e) in enumerate(zip(actual, pairs)):
        if e[1] is None:
            if a[0] != e[0]:
                raise Violation(f"debug output: value {index}: {a!r} instead of {e!r}")
        elif a != (e[0], str(e[1])):
            raise Violation(f"debug output: value {index}: {a!r} instead of {e!r}")
    equal(len(actual), len(pairs), "number of debug values")
    data_dumps = [d[1] for d in dt.dumps(text) if d[0] == "Record data"]
    sequences_equal(data_dumps, [i["data"] for p in case["pages"] for i in p[0]],
                    "record data")


def check_streams(value, ctx):
    offsets, tail, trailing = value
    offsets = sorted(offsets)
    data = bytes((i * 7 + 1) % 256 for i in range((offsets[-1] if offsets else 0) + tail))
    head = (1, 2, 3, len(data), 77, len(offsets), len(data), 78, len(offsets), 4, 5, 6)
    header = b"\0PataD\0\0" + struct.pack("<12I", *head)
    packed = struct.pack(f"<{len(offsets)}I", *offsets)
    ctx.note(len(offsets) > 2, data + packed, value)
    ends = offsets[1:] + [len(data)]
    ranges = [(a, b - a) for a, b in zip(offsets, ends)]
    for debug in (False, True):
        recorder = dt.Recorder()
        parser = spotlight_storedb.SpotlightStreamsMapHeaderFile(
            debug=debug, output_writer=recorder)
        parser.Open(ctx.write(header + trailing, "a.map.header"))
        parser.Close()
        equal((parser.data_size, parser.number_of_buckets, parser.number_of_offsets),
              (len(data), 77, len(offsets)), "header")
        if debug:
            dt.pairs_equal(recorder.text, [
                ("Unknown1", dt.hex8(1)), ("Unknown2", dt.hex8(2)),
                ("Unknown3", dt.hex8(3)), ("Data size", len(data)),
                ("Number of buckets", 77), ("Number of offsets", len(offsets)),
                ("Copy of data size", len(data)), ("Copy of number of buckets", 78),
                ("Copy of number of offsets", len(offsets)),
                ("Unknown10", dt.hex8(4)), ("Unknown11", dt.hex8(5)),
                ("Unknown12", dt.hex8(6))])
        if not offsets:
            continue
        recorder = dt.Recorder()
        parser = spotlight_storedb.SpotlightStreamsMapOffsetsFile(
            len(data), len(offsets), debug=debug, output_writer=recorder)
        for _ in range(2):
            recorder.parts.clear()
            parser.Open(ctx.write(packed + trailing, "a.map.offsets"))
            sequences_equal(parser.ranges, ranges, "ranges")
            parser.Close()
        if debug:
            dt.pairs_equal(recorder.text, [
                (f"Range: {i}", f"0x{a:08x} - 0x{a + b:08x} ({b})")
                for i, (a, b) in enumerate(ranges)])
        recorder = dt.Recorder()
        parser = spotlight_storedb.SpotlightStreamsMapDataFile(
            len(data), ranges, debug=debug, output_writer=recorder)
        for _ in range(2):
            parser.Open(ctx.write(data + trailing, "a.map.data"))
            sequences_equal(parser.stream_values, [data[a:a + b] for a, b in ranges],
                            "stream values")
            parser.Close()


def check_integer(value, ctx):
    (number, data), tail = value
    ctx.note(len(data) > 1, data, (number, data))
    for parser in (spotlight_storedb.SpotlightStoreDatabaseFile(),
                   spotlight_storedb.SpotlightStreamsMapDataFile(0, [])):
        equal(parser._ReadVariableSizeInteger(data + tail), (number, len(data)),
              f"integer {data.hex()}")
        for size in range(len(data)):
            try:
                result = parser._ReadVariableSizeInteger(data[:size])
            except errors.ParseError:
                continue
            raise Violation(f"integer {data[:size].hex()} of {data.hex()}: {result!r}")


def check_rejected(value, ctx):
    case, how, where = value
    case = dict(case, streams=[False] * 5, gap=0, backward=False, page_size=4096)
    data = build(case)
    blocks = len(data) // BLOCK
    maps = -(-len(case["pages"]) // case["per_map"])
    first = (1 + maps) * BLOCK
    last = data[-BLOCK:-BLOCK + 20]
    if how == "cut":
        data = data[:-1 - where % BLOCK]
    elif how == "signature":
        at = (where % blocks) * BLOCK
        at += where % 4
        data = data[:at] + bytes([data[at] ^ (1 << (where // 4 % 8))]) + data[at + 1:]
    elif how == "cycle":
        # The last page of the first table is followed by one of its pages.
        chain = max(1, -(-len(case["table"]["types"]) // case["per_page"]))
        at = first + (chain - 1) * BLOCK
        data = data[:at + 20] + struct.pack(
            "<I", first // BLOCK + where % chain) + data[at + 24:]
    elif how == "map page size":
        if not maps:
            return
        data = data[:BLOCK + 4] + struct.pack("<I", where % 20) + data[BLOCK + 8:]
    elif how == "page size":
        at = first + (where % (blocks - 1 - maps)) * BLOCK
        data = data[:at + 4] + struct.pack("<I", where % 20) + data[at + 8:]
    elif how == "table type":
        at = first + (where % (blocks - 1 - maps)) * BLOCK
        data = data[:at + 12] + struct.pack("<I", 0x10000 + where) + data[at + 16:]
    elif not case["pages"]:
        return
    elif how == "compression":
        # Neither zlib nor LZ4 compressed data.
        data = data[:-BLOCK + 16] + struct.pack("<I", 100) + b"\x79" + data[-BLOCK + 21:]
    elif how == "zlib":
        data = data[:-BLOCK + 12] + struct.pack("<II", 9, 100) + b"\x78\x9c" + b"\xff" * (
            BLOCK - 22)
    elif how == "lz4":
        data = data[:-BLOCK + 12] + struct.pack("<II", 0x1009, 100) + (
            b"bv41" + struct.pack("<II", 1000, 10) + b"\xff" * 10 + b"bv4$").ljust(
                BLOCK - 20, b"\0")
    elif how == "lz4 end":
        # No end of stream marker.
        data = data[:-BLOCK + 12] + struct.pack("<II", 0x1009, 100) + (
            b"bv4-" + struct.pack("<I", 7) + b"\4\0\0\0\1\2\3").ljust(BLOCK - 20, b"\0")
    elif how == "record":
        # A record of which the data is not all there.
        data = data[:-BLOCK + 8] + struct.pack("<III", 30, 9, 0) + struct.pack(
            "<I", 7 + where) + bytes(6) + bytes(BLOCK - 30)
    elif how == "record size":
        # A record that is too small for its header.
        size = where % 5
        data = data[:-BLOCK + 8] + struct.pack("<III", 24 + size, 9, 0) + struct.pack(
            "<I", size) + bytes(BLOCK - 24)
    del last
    ctx.note(True, data[:5 * BLOCK], (how, where), labels=[how])
    path = ctx.write(data, "store.db")
    dt.rejected(spotlight_storedb.SpotlightStoreDatabaseFile, path, f"{how} {where}")


def check_attribute_rejected(value, ctx):
    case, kind, flags, data = value
    case = dict(case, streams=[False] * 5)
    table = dict(case["table"], types=[(5, kind, flags, "kMDItemX")])
    head = b"\x09\0\0\0\0"
    records = [dict(data=head + b"\x05" + data, identifier=9, flags=0, numbers=[0] * 3,
                    attributes={}, pairs=[])]
    case.update(table=table, pages=[(records, "zlib", [], False)])
    data = build(case)
    ctx.note(True, data[:5 * BLOCK], (kind, flags))
    for debug in (False, True):
        parser = spotlight_storedb.SpotlightStoreDatabaseFile(
            debug=debug, output_writer=dt.Recorder())
        parser.Open(ctx.write(data, "store.db"))
        try:
            found = parser.GetMetadataItemByIdentifier(9)
        except errors.ParseError:
            continue
        finally:
            parser.Close()
        raise Violation(f"attribute of type {kind}/{flags} that ends early is "
                        f"{found.attributes['kMDItemX'].value!r}")


@st.composite
def truncated(draw):
    kind = draw(st.sampled_from([0, 2, 6, 7, 8, 9, 10, 11, 12, 14, 15]))
    flags = draw(st.sampled_from([0, 2, 3]))
    if kind in (0, 2, 6, 15) or (kind == 7 and flags == 0):
        data = draw(VARINT.filter(lambda v: len(v[1]) > 1))[1]
        data = data[:draw(st.integers(0, len(data) - 1))]
    elif kind in (8, 9, 10, 12) and flags == 0:
        data = bytes(draw(st.integers(0, {8: 0, 9: 3, 10: 7, 12: 7}[kind])))
    else:
        data = draw(st.binary(min_size=1, max_size=20))
        if kind == 7:
            data = b"\1" * len(data)
        elif kind == 11:
            data = b"abc\0" * 3
        data = encode(len(data) + draw(st.integers(1, 100)) * 8) + data
    return kind, flags, data


@st.composite
def blocks(draw):
    """Records with repeated data in LZ4 blocks that refer to the block before them."""
    patterns = draw(st.lists(st.binary(min_size=16, max_size=40), min_size=2, max_size=3))
    items = []
    for identifier in range(draw(st.integers(3, 10))):
        parts = draw(st.lists(st.sampled_from(patterns), min_size=1, max_size=3))
        value = b"".join(parts)
        data = encode(identifier) + bytes([0, 1, 2, 3]) + encode(5) + encode(len(value)) + value
        items.append(dict(
            data=data, attributes={"kMDItemX": (14, 0, value)}, pairs=[("Data size", len(value))],
            flags=0, identifier=identifier, numbers=[1, 2, 3]))
    case = draw(store(streams=False))
    size = draw(st.integers(20, 120))
    splits = [(size + draw(st.integers(-3, 3)), not draw(st.integers(0, 5)))
              for _ in range(draw(st.integers(2, 8)))]
    table = dict(case["table"], types=[(5, 14, 0, "kMDItemX")])
    return dict(case, table=table, pages=[(items, "lz4", splits, False)])


def check_blocks(case, ctx):
    data = build(case)
    ctx.note(len(case["pages"][0][2]) > 2, data, case["pages"][0][2])
    for debug in (False, True):
        parser = spotlight_storedb.SpotlightStoreDatabaseFile(
            debug=debug, output_writer=dt.Recorder())
        parser.Open(ctx.write(data, "store.db"))
        check_items(parser, case)
        parser.Close()


def check_types(case, ctx):
    """An attribute of which the type is not in this file is not read with another type."""
    items = [i for page in case["pages"] for i in page[0]]
    known = {i["identifier"]: i for i in items}
    ctx.note(any(i["attributes"] for i in items), repr(case), [i["attributes"] for i in items])
    first = build(dict(case, streams=[False] * 5))
    second = build(dict(case, streams=[False] * 5, table=dict(case["table"], types=[])))
    parser = spotlight_storedb.SpotlightStoreDatabaseFile()
    for data, valid in ((second, False), (first, True), (second, False)):
        parser.Open(ctx.write(data, "store.db"))
        try:
            if valid:
                check_items(parser, case)
                continue
            for identifier, i in known.items():
                try:
                    found = parser.GetMetadataItemByIdentifier(identifier)
                except errors.ParseError:
                    continue
                equal(found.attributes, {}, "attributes")
                equal(i["attributes"], {}, "attributes of a record without known types")
        finally:
            parser.Close()


GENERATORS = {"spotlight": store(streams=False).map(build)}
SUBTESTS = [
    SubTest("items", store(), check_store, 500, 12000),
    SubTest("blocks", blocks(), check_blocks, 100, 4000),
    SubTest("unknown types", store(streams=False), check_types, 60, 2000),
    SubTest("integers", st.tuples(VARINT, st.binary(max_size=3)), check_integer, 300,
            10000),
    SubTest("streams maps", st.tuples(
        st.lists(st.integers(0, 60), max_size=8), st.integers(0, 20),
        st.sampled_from([b"", b"tail"])), check_streams, 250, 6000),
    SubTest("rejected", st.tuples(
        store(streams=False), st.sampled_from([
            "cut", "signature", "cycle", "map page size", "page size", "table type",
            "compression", "zlib", "lz4", "lz4 end", "record", "record size"]),
        st.integers(0, 5000)), check_rejected, 250, 6000),
    SubTest("attributes rejected", st.builds(
        lambda c, t: (c,) + t, store(streams=False), truncated()),
            check_attribute_rejected, 200, 5000),
]
