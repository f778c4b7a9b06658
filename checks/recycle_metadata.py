"""P19: Recycle.Bin metadata files and Recycler INFO2 files."""

import struct

import dt
from vf import SubTest, equal, st

from dtformats import recycle_bin
from dtformats import recycler

PROPERTY = "P19"
TITLE = "Recycle bin metadata gives the original path, size and deletion time"
STATEMENT = (
    "For every Recycle.Bin $I file of format version 1 or 2, the reported original "
    "filename, file size and deletion time are the stored ones; for every Recycler "
    "INFO2 file (280 and 800 byte entries), debug mode reports the header and every "
    "entry in order with its ANSI and Unicode name up to the end-of-string character "
    "regardless of remnant data behind it, index, drive, deletion time and size. "
    "Other format versions, entry sizes and truncated files are rejected as parse "
    "errors.")
QUANTIFIER = (
    "every file name (any UTF-16 or code page text, up to the size of the field), "
    "remnant data, number of entries, size and time value")
WHY = (
    "The tests read one file per version; names of other lengths, characters outside "
    "ASCII and remnant data occur only on other systems.")
FILES = [
    "dtformats/recycle_bin.py", "dtformats/recycle_bin.yaml",
    "dtformats/recycler.py", "dtformats/recycler.yaml",
    "dtformats/recycler.debug.yaml"]
MECHANISM = [
    ("name per version", "recycle_bin.RecycleBinMetadataFile._ReadOriginalFilename"),
    ("entry loop and size", "recycler.RecyclerInfo2File.ReadFileObject"),
    ("entry", "recycler.RecyclerInfo2File._ReadFileEntry"),
]
OBSERVE = ["public attributes of RecycleBinMetadataFile", "debug output"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "a name with characters outside ASCII or remnant data behind it"
ASSUMPTIONS = ["names contain no NUL; ANSI names are windows-1252 text"]

CP1252 = [chr(c) for c in range(0x20, 0x7F)] + list("éüßñ€Š¿ÿ")


def utf16(size):
    """Text of at most size UTF-16 characters."""
    def cut(text):
        while len(text.encode("utf-16-le")) > size * 2:
            text = text[:-1]
        return text
    return st.one_of(
        dt.UNICODE, dt.ASCII1, st.just("C:\\" + "x" * size), st.just("é" * size),
        st.just("😀" * size), st.just("\u0100\u0200a\u4e00"),
        st.just("x" * (size - 1))).map(cut)


BIN = st.fixed_dictionaries(dict(
    version=st.sampled_from([1, 2]), size=dt.u(64), time=dt.FILETIME,
    name=utf16(259), remnant=dt.u(8), extra=st.integers(0, 6)))


def build_bin(m):
    data = struct.pack("<QQQ", m["version"], m["size"], m["time"])
    name = m["name"].encode("utf-16-le") + b"\0\0"
    if m["version"] == 1:
        return data + name.ljust(520, bytes([m["remnant"]]))
    return data + struct.pack("<I", len(name) // 2) + name + (
        bytes([m["remnant"]]) * m["extra"])


def check_bin(m, ctx):
    data = build_bin(m)
    path = ctx.write(data)
    ctx.note(
        not m["name"].isascii() or m["remnant"], data, m,
        labels=[f"version {m['version']:d}"])
    for debug in (False, True):
        parser, text = dt.read_file(
            recycle_bin.RecycleBinMetadataFile, path, debug=debug)
        equal(parser.format_version, m["version"], "format version")
        equal(parser.original_file_size, m["size"], "size")
        equal(parser.deletion_time, m["time"], "deletion time")
        equal(parser.original_filename, m["name"], "original filename")
    dt.pairs_equal(text, [
        ("Format version", m["version"]), ("Original file size", m["size"]),
        ("Deletion time", dt.filetime(m["time"])), ("Original filename", m["name"])])
    dt.files_unchanged(path, data)


def check_bin_rejected(case, ctx):
    m, kind, number = case
    data = build_bin(m)
    if kind == "version":
        wrong = dt.wrong(m["version"], 64, number, [0, 3, 1 << 32, 2 + (1 << 63), 257])
        if wrong in (1, 2):
            wrong += 256
        data = struct.pack("<Q", wrong) + data[8:]
    else:
        # At least the end-of-string character is missing.
        end = 24 + (4 if m["version"] == 2 else 0) + 2 * len(
            m["name"].encode("utf-16-le")) // 2 + 2
        data = data[:number % end]
    path = ctx.write(data)
    ctx.note(kind == "truncated", data, (kind, number), labels=[kind])
    dt.rejected(recycle_bin.RecycleBinMetadataFile, path, f"{kind} {number:d}")


ENTRY = st.fixed_dictionaries(dict(
    ansi=st.text(alphabet=CP1252, max_size=40) | st.just("x" * 259),
    remnant=st.sampled_from([0, 0, 0x41, 0x81, 0xFF]),
    name=utf16(259), index=dt.u(32), drive=dt.u(32), time=dt.FILETIME, size=dt.u(32)))
INFO2 = st.fixed_dictionaries(dict(
    unknown1=dt.u(32), count=dt.u(32), unknown2=dt.u(32),
    entry_size=st.sampled_from([280, 800]), unknown3=dt.u(32),
    entries=dt.many(ENTRY, max_size=4)))


def build_info2(m):
    data = struct.pack(
        "<5I", m["unknown1"], m["count"], m["unknown2"], m["entry_size"],
        m["unknown3"])
    pairs = [
        ("Unknown1", dt.hex8(m["unknown1"])), ("Number of file entries", m["count"]),
        ("Unknown2", dt.hex8(m["unknown2"])), ("File entry size", m["entry_size"]),
        ("Unknown3", dt.hex8(m["unknown3"]))]
    for e in m["entries"]:
        remnant = bytes([e["remnant"]])
        entry = (e["ansi"].encode("cp1252") + b"\0").ljust(260, remnant)
        entry += struct.pack("<IIQI", e["index"], e["drive"], e["time"], e["size"])
        pairs += [
            ("Original filename (ANSI)", e["ansi"]), ("Index", e["index"]),
            ("Drive number", e["drive"]), ("Deletion time", dt.filetime(e["time"])),
            ("Original file size", e["size"])]
        if m["entry_size"] == 800:
            entry += (e["name"].encode("utf-16-le") + b"\0\0").ljust(520, remnant)
            pairs.append(("Original filename (Unicode)", e["name"]))
        data += entry
    return data, pairs


def check_info2(m, ctx):
    data, pairs = build_info2(m)
    path = ctx.write(data)
    ctx.note(
        any(e["remnant"] or not e["name"].isascii() for e in m["entries"]), data, m)
    _, text = dt.read_file(recycler.RecyclerInfo2File, path)
    dt.pairs_equal(text, pairs, labels=[
        "Original filename (ANSI)", "Original filename (Unicode)"])
    dt.files_unchanged(path, data)


def check_info2_rejected(case, ctx):
    m, kind, number = case
    data, _ = build_info2(m)
    if kind == "size" or not m["entries"]:
        wrong = dt.wrong(m["entry_size"], 32, number, [0, 279, 281, 799, 801, 280 + 65536])
        data = data[:12] + struct.pack("<I", wrong) + data[16:]
    else:
        data = data[:-(1 + number % (m["entry_size"] - 1))]
    path = ctx.write(data)
    ctx.note(bool(m["entries"]), data, (kind, number), labels=[kind])
    dt.rejected(recycler.RecyclerInfo2File, path, f"{kind} {number:d}")


SUBTESTS = [
    SubTest("recycle_bin", BIN, check_bin, 500, 20000),
    SubTest("recycle_bin_rejects", st.tuples(
        BIN, st.sampled_from(["version", "truncated"]), st.integers(0, 5000)),
        check_bin_rejected, 200, 4000),
    SubTest("info2", INFO2, check_info2, 500, 20000),
    SubTest("info2_rejects", st.tuples(
        INFO2, st.sampled_from(["size", "truncated"]), st.integers(0, 5000)),
        check_info2_rejected, 200, 4000),
]
