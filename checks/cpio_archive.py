"""P10: CPIO archives: entries, metadata and data come back as archived."""

import struct

import dt
from dt import dictionary, read_file
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import cpio

PROPERTY = "P10"
TITLE = "CPIO archives list and extract exactly what was archived"
STATEMENT = (
    "For every well-formed CPIO archive (old binary of either byte order, portable "
    "ASCII, new ASCII, new ASCII with checksum), the reported entries are the "
    "archived ones in order, with the archived path, inode, mode, owner, times and "
    "sizes, and reading an entry returns exactly its data, also when reads of "
    "different entries are interleaved. Look-up by path and by prefix agrees with "
    "the listing, and the trailer and what follows it is never an entry. Paths that are not "
    "UTF-8 are entries of their own, as many as there are different ones.")
QUANTIFIER = (
    "every archive format, number of entries, path length, data size (alignment "
    "padding), header field value and order of reads")
WHY = (
    "The tests read one archive of one member per format; alignment, field order "
    "and multi-entry positioning depend on sizes no test varies.")
FILES = ["dtformats/cpio.py", "dtformats/cpio.yaml", "dtformats/data_range.py"]
MECHANISM = [
    ("header variants and padding", "cpio.CPIOArchiveFile._ReadFileEntry"),
    ("entry data windows", "cpio.CPIOArchiveFileEntry.read / data_range.DataRange"),
    ("path index", "cpio.CPIOArchiveFile.GetFileEntries / GetFileEntryByPath"),
]
OBSERVE = ["CPIOArchiveFile and CPIOArchiveFileEntry public API", "debug output"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = (
    "an archive of at least two entries of which at least one has data whose size "
    "is not a multiple of the alignment of the format")
ASSUMPTIONS = [
    "paths have no NUL or, when they are not UTF-8, backslash, the archive ends in a TRAILER!!! entry or with the last "
    "entry",
]

FORMATS = ("bin-big-endian", "bin-little-endian", "odc", "newc", "crc")

MAX = {
    "bin-big-endian": (16, 32), "bin-little-endian": (16, 32),
    "odc": (18, 33), "newc": (32, 32), "crc": (32, 32),
}


def pack_entry(fmt, e, offset):
    path = e["path"] if isinstance(e["path"], bytes) else e["path"].encode("utf-8")
    path += b"\0" * e["path_nuls"]
    data = e["data"]
    if fmt.startswith("bin"):
        o = ">" if fmt == "bin-big-endian" else "<"

        def long(v):
            return struct.pack(o + "HH", v >> 16, v & 0xFFFF)

        header = struct.pack(
            o + "8H", 0o070707, e["dev"], e["ino"], e["mode"], e["uid"], e["gid"],
            e["nlink"], e["rdev"])
        header += long(e["mtime"]) + struct.pack(o + "H", len(path)) + long(len(data))
        align = 2
    elif fmt == "odc":
        header = b"070707" + b"".join(
            b"%06o" % e[k]
            for k in ("dev", "ino", "mode", "uid", "gid", "nlink", "rdev"))
        header += b"%011o" % e["mtime"] + b"%06o" % len(path) + b"%011o" % len(data)
        align = 1
    else:
        header = b"070701" if fmt == "newc" else b"070702"
        case = b"%08x" if e["lower"] else b"%08X"
        header += b"".join(case % v for v in (
            e["ino"], e["mode"], e["uid"], e["gid"], e["nlink"], e["mtime"],
            len(data), e["dev"], e["dev_minor"], e["rdev"], e["rdev_minor"],
            len(path), sum(data) & 0xFFFFFFFF if fmt == "crc" else 0))
        align = 4

    blob = header + path
    blob += b"\0" * (-(offset + len(blob)) % align)
    data_offset = offset + len(blob)
    blob += data
    blob += b"\0" * (-(offset + len(blob)) % align)
    return blob, data_offset


def build(model):
    fmt = model["format"]
    blob = b""
    offsets = []
    for e in model["entries"] + [TRAILER] * model["trailer"]:
        part, data_offset = pack_entry(fmt, e, len(blob))
        offsets.append(data_offset)
        blob += part
    return blob + model["trailing"], len(blob), offsets


TRAILER = dict(path="TRAILER!!!", path_nuls=1, data=b"", dev=0, ino=0, mode=0, uid=0,
               gid=0, nlink=1, rdev=0, mtime=0, dev_minor=0, rdev_minor=0, lower=True)

PATHS = st.one_of(
    dt.NAME,
    st.lists(dt.NAME, min_size=1, max_size=4).map("/".join),
    dt.ASCII1.filter(lambda p: p != "TRAILER!!!"),
    st.text(alphabet=st.characters(exclude_categories=["Cs", "Cc", "Zl", "Zp"]),
            min_size=1, max_size=12),
    st.sampled_from(["a", "a/b", "a/b/c", "TRAILER!!", "TRAILER!!!x", "."]))


@st.composite
def models(draw, complete=False):
    fmt = draw(st.sampled_from(FORMATS))
    bits, long_bits = MAX[fmt]
    entry = st.fixed_dictionaries(dict(
        path=PATHS, path_nuls=st.sampled_from([1, 1, 1, 2, 3]),
        data=st.binary(max_size=40) | st.one_of(st.integers(41, 3000), st.sampled_from([65535, 65536, 70001])).map(
            lambda n: bytes((i * 7 + n) & 0xFF for i in range(n))),
        dev=dt.u(bits), ino=dt.u(bits), mode=dt.u(bits), uid=dt.u(bits),
        gid=dt.u(bits), nlink=dt.u(bits), rdev=dt.u(bits), mtime=dt.u(long_bits),
        dev_minor=dt.u(bits), rdev_minor=dt.u(bits), lower=st.booleans()))
    entries = draw(dt.many(entry, max_size=6))
    trailer = complete or not entries or draw(st.sampled_from([True, True, True, True, False]))
    return dict(
        format=fmt, entries=entries, trailer=trailer,
        trailing=b"" if not trailer else draw(st.sampled_from([b"", b"\0" * 3, b"\0" * 512, b"garbage"])),
        prefix=draw(st.sampled_from(["", "a", "a/", "a/b", "zz"])),
        reads=draw(st.lists(
            st.tuples(st.integers(0, 5), st.integers(1, 50)), max_size=8)))


def check(model, ctx):
    data, archive_size, _ = build(model)
    path = ctx.write(data)
    fmt = model["format"]

    first = {}
    for e in model["entries"]:
        first.setdefault(e["path"], e)

    odd = any(len(e["data"]) % 4 and len(e["data"]) % 2 for e in model["entries"])
    ctx.note(len(model["entries"]) >= 2 and odd, data, model, labels=[fmt])

    recorder = dt.Recorder()
    archive = cpio.CPIOArchiveFile(debug=True, output_writer=recorder)
    archive.Open(path)
    try:
        equal(archive.file_format, fmt, "file format")
        equal(archive.size, archive_size, "archive size")

        entries = list(archive.GetFileEntries())
        sequences_equal([e.path for e in entries], list(first), "paths")
        for entry in entries:
            e = first[entry.path]
            for name, key in (
                    ("inode_number", "ino"), ("mode", "mode"),
                    ("user_identifier", "uid"), ("group_identifier", "gid"),
                    ("modification_time", "mtime")):
                equal(getattr(entry, name), e[key], f"{entry.path}: {name}")
            equal(entry.data_size, len(e["data"]), f"{entry.path}: data size")
            equal(entry.read(), e["data"], f"{entry.path}: data")
            equal(entry.read(), b"", f"{entry.path}: data after the end")

        # Reads of different entries interleaved do not disturb each other.
        positions = {}
        for entry in entries:
            entry.seek(0)
            positions[entry.path] = 0
        for index, size in model["reads"]:
            if not entries:
                break
            entry = entries[index % len(entries)]
            expected = first[entry.path]["data"]
            position = positions[entry.path]
            equal(entry.read(size), expected[position:position + size],
                  f"{entry.path}: read of {size:d} at {position:d}")
            positions[entry.path] = min(len(expected), position + size)

        prefix = model["prefix"]
        sequences_equal(
            [e.path for e in archive.GetFileEntries(path_prefix=prefix)],
            [p for p in first if p.startswith(prefix)], f"paths with prefix {prefix!r}")
        for p in first:
            require(archive.FileEntryExistsByPath(p) is True, f"{p!r} does not exist")
            entry = archive.GetFileEntryByPath(p)
            require(entry and entry.path == p, f"GetFileEntryByPath({p!r})")
        for p in ("TRAILER!!!", "no/such/entry\x01", ""):
            if p not in first:
                require(not archive.FileEntryExistsByPath(p), f"{p!r} exists")
                require(not archive.GetFileEntryByPath(p), f"{p!r} found")
    finally:
        archive.Close()

    require(not list(archive.GetFileEntries()), "entries after Close")

    out = dictionary(recorder.text)
    every = model["entries"] + [TRAILER] * model["trailer"]
    expected = {
        "Signature": [{"newc": "b'070701'", "crc": "b'070702'", "odc": "b'070707'"}.get(
            fmt, "0x71c7")] * len(every),
        "Path": [e["path"] for e in every],
        "Inode number": [str(e["ino"]) for e in every],
        "Mode": [f"{e['mode']:o}" for e in every],
        "User identifier (UID)": [str(e["uid"]) for e in every],
        "Group identifier (GID)": [str(e["gid"]) for e in every],
        "Number of links": [str(e["nlink"]) for e in every],
        "Modification time": [str(e["mtime"]) for e in every],
        "Path size": [str(len(e["path"].encode()) + e["path_nuls"]) for e in every],
        "File size": [str(len(e["data"])) for e in every],
    }
    if fmt in ("newc", "crc"):
        expected["Device major number"] = [str(e["dev"]) for e in every]
        expected["Device minor number"] = [str(e["dev_minor"]) for e in every]
        expected["Special device major number"] = [str(e["rdev"]) for e in every]
        expected["Special device minor number"] = [
            str(e["rdev_minor"]) for e in every]
        expected["Checksum"] = [
            f"0x{sum(e['data']) if fmt == 'crc' else 0:08x}" for e in every]
    else:
        expected["Device number"] = [str(e["dev"]) for e in every]
        expected["Special device number"] = [str(e["rdev"]) for e in every]
    for label, values in expected.items():
        sequences_equal(out.get(label, []), values, f"debug output {label!r}")

    dt.files_unchanged(path, data)


BYTES = st.one_of(
    st.lists(st.sampled_from([b"a", b"/", b"\xe9", b"\xff", b"\xc3", "\u00e9".encode(), b"\x80"]),
             min_size=1, max_size=4).map(b"".join),
    st.binary(min_size=1, max_size=8).map(
        lambda data: data.replace(b"\0", b"\xff").replace(b"\\", b"\xfe")))


def check_encodings(case, ctx):
    """Entries of which the paths are in another encoding."""
    fmt, items, debug = case
    entries = [dict(TRAILER, path=path, data=data) for path, data in items]
    data, _, _ = build(dict(format=fmt, entries=entries, trailer=True, trailing=b""))
    path = ctx.write(data)
    first = {}
    for entry in entries:
        first.setdefault(entry["path"], entry["data"])
    other = 0
    archive = cpio.CPIOArchiveFile(debug=debug, output_writer=dt.Recorder())
    archive.Open(path)
    try:
        found = list(archive.GetFileEntries())
        equal([entry.read() for entry in found], list(first.values()), "data of the entries")
        for entry, name in zip(found, first):
            require(archive.GetFileEntryByPath(entry.path) is entry,
                    f"GetFileEntryByPath({entry.path!r})")
            try:
                equal(entry.path, name.decode("utf-8"), "path")
            except UnicodeDecodeError:
                other += 1
    finally:
        archive.Close()
    ctx.note(other > 1, data, case, labels=[fmt])


SUBTESTS = [
    SubTest("roundtrip", models(), check, quick=800),
    SubTest("encodings", st.tuples(
        st.sampled_from(FORMATS), st.lists(st.tuples(BYTES, st.binary(max_size=6)), max_size=6),
        st.booleans()), check_encodings, quick=250),
]

read_file  # noqa: B018
