"""P22: Firefox cache version 1 map and block files."""

import struct

import dt
from vf import SubTest, equal, st

from dtformats import firefox_cache1

PROPERTY = "P22"
TITLE = "Firefox cache (version 1): map records and block entries are all reported"
STATEMENT = (
    "For every cache map file, reading it in debug mode reports the header values, "
    "eviction ranks and bucket usage and every record in order with its hash number, "
    "eviction rank and the decoded data and metadata locations; a major version other "
    "than 1 or a data size that does not match the file size is rejected as a parse "
    "error. For every cache block file (256, 1024 or 4096-byte blocks according to "
    "its name) every entry that starts on a block boundary is reported exactly once, "
    "in order, with its decoded location, times, sizes, request and information, "
    "whatever the blocks between the entries contain; a file with another name is "
    "rejected as a parse error.")
QUANTIFIER = (
    "every number of records, location bits, entry size from 1 up to 4 blocks, and "
    "sequences of entries and blocks that do not hold an entry")
WHY = "There is no test of these readers: no test file exists for this module."
FILES = ["dtformats/firefox_cache1.py", "dtformats/firefox_cache1.yaml",
         "dtformats/firefox_cache1.debug.yaml"]
MECHANISM = [
    ("map file", "firefox_cache1.CacheMapFile.ReadFileObject"),
    ("block stepping", "firefox_cache1.CacheBlockFile._ReadCacheEntry"),
    ("location", "firefox_cache1.CacheMapFile._FormatCacheLocation"),
]
OBSERVE = ["debug output of CacheMapFile.Open and CacheBlockFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more records, or an entry preceded by another entry or other block"
ASSUMPTIONS = []

LOCATION = st.one_of(
    dt.u(32), st.integers(0, 31).map(lambda n: 1 << n), st.just(0x91010003))


def location_string(v):
    number = v % (1 << 24)
    extra = v // (1 << 24) % 4
    selector = v // (1 << 28) % 4
    reserved = ((v >> 26) & 3) | (((v >> 30) & 1) << 4)
    flag = v // (1 << 31)
    return (f"block number: {number:d}, extra blocks: {extra:d}, location selector: "
            f"{selector:d}, reserved: {reserved:02x}, location flag: {flag:d}")


MAP = st.fixed_dictionaries(dict(
    minor=dt.u(16), entries=dt.s(32), dirty=dt.u(32), number=dt.s(32),
    ranks=st.lists(dt.u(32), min_size=32, max_size=32),
    usage=st.lists(dt.u(32), min_size=32, max_size=32),
    records=dt.many(st.tuples(dt.u(32), dt.u(32), LOCATION, LOCATION), max_size=6)))


def build_map(case, major=1, difference=0):
    data = struct.pack(
        ">HHIiIi", major, case["minor"], 16 * len(case["records"]) + difference,
        case["entries"], case["dirty"], case["number"])
    data += struct.pack(">32I", *case["ranks"]) + struct.pack(">32I", *case["usage"])
    return data + b"".join(struct.pack(">IIII", *r) for r in case["records"])


def check_map(case, ctx):
    data = build_map(case)
    path = ctx.write(data, "_CACHE_MAP_")
    ctx.note(len(case["records"]) > 1, data, case["records"])
    _, text = dt.read_file(firefox_cache1.CacheMapFile, path)
    expected = [
        ("Major format version", 1), ("Minor format version", case["minor"]),
        ("Data size", 16 * len(case["records"])), ("Number of entries", case["entries"]),
        ("Is dirty flag", case["dirty"]), ("Number of records", case["number"]),
        ("Eviction ranks", ", ".join(str(v) for v in case["ranks"])),
        ("Bucket usage", ", ".join(str(v) for v in case["usage"]))]
    for r in case["records"]:
        expected.extend([
            ("Hash number", r[0]), ("Eviction rank", r[1]),
            ("Data location", location_string(r[2])),
            ("Metadata location", location_string(r[3]))])
    dt.pairs_equal(text, expected, labels=["Hash number"])
    dt.files_unchanged(path, data)


def check_map_rejected(value, ctx):
    case, kind, number = value
    major, difference, cut = 1, 0, 0
    if kind == "major":
        major = dt.wrong(1, 16, number, [0, 2, 256, 257, 65535])
    elif kind == "size":
        difference = [1, -1, 16, 276, 300, 16 * len(case["records"]) + 1][number % 6]
        difference = max(difference, -16 * len(case["records"]))
        if difference == 0:
            difference = 1
    else:
        cut = 1 + number % (275 + 16 * len(case["records"]))
    data = build_map(case, major, difference)
    data = data[:len(data) - cut]
    path = ctx.write(data, "_CACHE_MAP_")
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(firefox_cache1.CacheMapFile, path, f"{kind} {number:d}")


ENTRY = st.fixed_dictionaries(dict(
    minor=dt.u(16), location=LOCATION, fetch_count=dt.s(32), fetched=dt.POSIX32,
    modified=dt.POSIX32, expiration=dt.POSIX32, data_size=dt.u(32), request=dt.ASCII,
    terminated=st.booleans(),
    # Information size: a number of bytes, or relative to the end of a block.
    information=st.tuples(
        st.sampled_from(["small", "block"]), st.integers(0, 60),
        st.integers(1, 4), st.integers(-2, 2))))
OTHER = st.sampled_from(["zero", "random", "bitmap", "sizes", "nonascii"])
BLOCKS = st.tuples(
    st.sampled_from([("_CACHE_001_", 256), ("_CACHE_002_", 1024), ("_CACHE_003_", 4096)]),
    dt.many(st.one_of(ENTRY, OTHER), max_size=7), st.integers(0, 1 << 30),
    st.booleans())


def noise(size, seed):
    # Deterministic bytes; the major version is never 1.
    data = bytearray()
    state = seed or 1
    while len(data) < size:
        state = (state * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        data.extend(struct.pack(">Q", state))
    data = data[:size]
    if data[:2] == b"\0\1":
        data[0] = 2
    return bytes(data)


def build_blocks(case):
    (_, size), items, seed, pad = case
    data = b""
    entries = []
    for index, item in enumerate(items):
        if item == "zero":
            data += b"\0" * size
        elif item == "random":
            data += noise(size, seed + index)
        elif item == "bitmap":
            data += b"\xff" * size
        elif item == "sizes":
            # Not an entry (major version 0), with sizes that span blocks.
            data += struct.pack(
                ">HHIIIIIIII", 0, 0, 0, 0, 0, 0, 0, 0, size, size).ljust(size, b"\0")
        elif item == "nonascii":
            data += (struct.pack(
                ">HHIIIIIIII", 1, 19, 0, 0, 0, 0, 0, 0, 4, 0) + b"\xff" * 4).ljust(
                    size, b"\0")
        else:
            request = item["request"].encode() + (b"\0" if item["terminated"] else b"")
            kind, small, blocks, delta = item["information"]
            if kind == "small":
                length = small
            else:
                length = max(0, blocks * size + min(
                    delta, 0 if blocks == 4 else delta) - 36 - len(request))
            information = noise(length, seed + index) if length else b""
            entry = struct.pack(
                ">HHIiIIIIII", 1, item["minor"], item["location"], item["fetch_count"],
                item["fetched"], item["modified"], item["expiration"],
                item["data_size"], len(request), length) + request + information
            entries.append((item, request, information))
            if index < len(items) - 1 or pad:
                entry = entry.ljust(-(-len(entry) // size) * size, b"\xcd")
            data += entry
    return data, entries


def check_blocks(case, ctx):
    data, entries = build_blocks(case)
    path = ctx.write(data, case[0][0])
    ctx.note(
        bool(entries) and len(case[1]) > 1, data,
        [i if isinstance(i, str) else (i["request"], i["information"])
         for i in case[1]],
        labels=[i if isinstance(i, str) else "entry" for i in case[1]])
    _, text = dt.read_file(firefox_cache1.CacheBlockFile, path)
    expected = []
    for item, request, information in entries:
        expected.extend([
            ("Major format version", 1), ("Minor format version", item["minor"]),
            ("Location", location_string(item["location"])),
            ("Fetch count", item["fetch_count"]),
            ("Last fetched time", dt.posix(item["fetched"])),
            ("Last modified time", dt.posix(item["modified"])),
            ("Expiration time", dt.posix(item["expiration"])),
            ("Cached data size", item["data_size"]), ("Request size", len(request)),
            ("Information size", len(information)), ("Request", item["request"])])
    dt.pairs_equal(text, expected, labels=["Major format version", "Request"])
    equal([d for name, d in dt.dumps(text) if name == "Information"],
          [i for _, _, i in entries], "information")
    dt.files_unchanged(path, data)


def check_name(value, ctx):
    case, name = value
    path = ctx.write(build_blocks(case)[0], name)
    ctx.note(True, value, name)
    dt.rejected(firefox_cache1.CacheBlockFile, path, name)


GENERATORS = {
    "firefox_cache1_map": MAP.map(build_map),
}
SUBTESTS = [
    SubTest("map", MAP, check_map, 200, 10000),
    SubTest("map_rejects", st.tuples(
        MAP, st.sampled_from(["major", "size", "truncated"]), st.integers(0, 5000)),
        check_map_rejected, 120, 2000),
    SubTest("blocks", BLOCKS, check_blocks, 500, 15000),
    SubTest("names", st.tuples(BLOCKS, st.sampled_from(
        ["_CACHE_000_", "_CACHE_004_", "_CACHE_MAP_", "_CACHE_001", "x_CACHE_001_",
         "_cache_001_"])), check_name, 25, 300),
]
