"""P26: Chrome cache: hash, addresses, data block files, index files."""

import contextlib
import io
import logging
import os
import struct

import dt
from vf import SubTest, Violation, equal, require, sequences_equal, st

from dtformats import chrome_cache

PROPERTY = "P26"
TITLE = "Chrome cache: hash, addresses, index table and entry chains are exact"
STATEMENT = (
    "For every key the SuperFastHash of its bytes (and of the equal text of code "
    "points below 256) is the published hash. For every 32-bit cache address the file "
    "type, file name, block number, block offset and block size are decoded from "
    "their bit ranges and can be printed. For every data block file and index file "
    "of version 2.0 or 2.1 the debug output reports all header values and every "
    "range of allocated blocks, index_table maps exactly the non-zero table entries "
    "(and only those of the file read last), ReadCacheEntry returns the hash, key up "
    "to the first NUL, creation time, next and rankings address of the entry at the "
    "given offset, and parsing a cache directory prints each entry that is reachable "
    "from the index, in order, once (up to 64 entries of a chain). Other versions, signatures and truncated "
    "headers are rejected as parse errors.")
QUANTIFIER = (
    "every key of any length, every 32-bit address, every table, bitmap, chain of "
    "entries over several block files, and every creation time")
WHY = (
    "A test hashes two keys, decodes three addresses and opens files that are not "
    "in the repository; directory parsing and entries are not tested.")
FILES = ["dtformats/chrome_cache.py", "dtformats/chrome_cache.yaml",
         "dtformats/chrome_cache.debug.yaml"]
MECHANISM = [
    ("hash", "chrome_cache.SuperFastHash"),
    ("address", "chrome_cache.CacheAddress"),
    ("entry", "chrome_cache.DataBlockFile.ReadCacheEntry"),
    ("table", "chrome_cache.IndexFile._ReadIndexTable"),
    ("chains", "chrome_cache.ChromeCacheParser.ParseDirectory"),
]
OBSERVE = ["index_table, CacheEntry and CacheAddress attributes",
           "debug output", "lines printed by ParseDirectory"]
TECHNIQUE = "property-based testing against an independent writer and reference hash"
RULE = "a key longer than 3 bytes, an address with block bits, or two or more entries"
ASSUMPTIONS = ["block_size of an address is the size field times the block size, "
               "as the repository's test pins it"]

M32 = 0xFFFFFFFF


def reference_hash(data):
    """Paul Hsieh's SuperFastHash (unsigned variant), from its definition."""
    if not data:
        return 0
    h = len(data) & M32
    words = len(data) // 4
    for i in range(words):
        low, high = struct.unpack_from("<HH", data, 4 * i)
        h = (h + low) & M32
        h = ((h << 16) ^ ((high << 11) ^ h)) & M32
        h = (h + (h >> 11)) & M32
    tail = data[4 * words:]
    if len(tail) == 3:
        h = (h + struct.unpack("<H", tail[:2])[0]) & M32
        h = (h ^ (h << 16)) & M32
        h = (h ^ (tail[2] << 18)) & M32
        h = (h + (h >> 11)) & M32
    elif len(tail) == 2:
        h = (h + struct.unpack("<H", tail)[0]) & M32
        h = (h ^ (h << 11)) & M32
        h = (h + (h >> 17)) & M32
    elif len(tail) == 1:
        h = (h + tail[0]) & M32
        h = (h ^ (h << 10)) & M32
        h = (h + (h >> 1)) & M32
    h = (h ^ (h << 3)) & M32
    h = (h + (h >> 5)) & M32
    h = (h ^ (h << 4)) & M32
    h = (h + (h >> 17)) & M32
    h = (h ^ (h << 25)) & M32
    return (h + (h >> 6)) & M32


KEY = st.one_of(
    st.binary(max_size=64), st.binary(min_size=64, max_size=700),
    st.tuples(st.integers(0, 255), st.integers(0, 80)).map(
        lambda v: bytes([v[0]]) * v[1]))


def check_hash(data, ctx):
    ctx.note(len(data) > 3, data, data[:40], labels=[f"remainder {len(data) % 4}"])
    expected = reference_hash(data)
    equal(chrome_cache.SuperFastHash(data), expected, "hash of bytes")
    equal(chrome_cache.SuperFastHash(data.decode("latin1")), expected, "hash of text")
    equal(chrome_cache.SuperFastHash(bytearray(data)), expected, "hash of bytearray")


ADDRESS = st.one_of(
    dt.u(32),
    st.builds(
        lambda i, t, n, f, b: (i << 31) | (t << 28) | (n << 24) | (f << 16) | b,
        st.integers(0, 1), st.integers(0, 7), st.integers(0, 15), st.integers(0, 255),
        dt.u(16)),
    st.just(0), st.integers(0, 31).map(lambda n: 1 << n))
BLOCK = {1: 36, 2: 256, 3: 1024, 4: 4096}
DESCRIPTION = {0: "Separate file", 1: "Rankings block file", 2: "256 byte block file",
               3: "1024 byte block file", 4: "4096 byte block file"}


def model_address(v):
    """(initialized, type, filename, number, offset, size)."""
    kind = (v >> 28) & 7
    if v == 0:
        return False, kind, None, None, None, None
    initialized = v >= 1 << 31
    if kind == 0:
        return initialized, kind, "f_%06x" % (v % (1 << 28)), None, None, None
    if kind not in BLOCK:
        return initialized, kind, None, None, None, None
    number = v % (1 << 16)
    return (initialized, kind, "data_%d" % ((v >> 16) % 256), number,
            8192 + BLOCK[kind] * number, ((v >> 24) % 4) * BLOCK[kind])


def address_string(v):
    initialized, kind, name, number, offset, size = model_address(v)
    if v == 0:
        return "0x00000000 (uninitialized)"
    text = "0x%08x (initialized: %s, file type: %s" % (
        v, initialized, DESCRIPTION.get(kind, "Unknown"))
    if name is not None:
        text += ", filename: " + name
    if number is not None:
        text += ", block number: %d, block offset: 0x%08x, block size: %d" % (
            number, offset, size)
    return text + ")"


def attributes(address):
    return (bool(address.is_initialized), address.file_type, address.filename,
            address.block_number, address.block_offset, address.block_size)


def address_printed(text, value):
    """The printed address; not the exact text when the file type is unknown."""
    if value != 0 and ((value >> 28) & 7) > 4:
        return text.startswith("0x%08x " % value) and "Unknown" in text
    return text == address_string(value)


def check_address(value, ctx):
    ctx.note(value > 0xFFFF, value, hex(value),
             labels=[f"type {(value >> 28) & 7}"])
    address = chrome_cache.CacheAddress(value)
    equal(address.value, value, "value")
    equal(attributes(address), model_address(value), f"address 0x{value:08x}")
    text = address.GetDebugString()
    require(address_printed(text, value), f"debug string of 0x{value:08x}: {text!r}")


# Creation times: up to the year 9999 and beyond.
TIME = st.one_of(
    st.integers(0, 265046774399999999), st.integers(0, 3000000),
    st.sampled_from([0, 999999, 1000000, 13000000000000000, 11644473600000000]))
TIME_ANY = st.one_of(TIME, TIME, dt.u(64))


def timestamp(v):
    if v > 265046774399999999:
        return "0x%08x" % v
    seconds, fraction = divmod(v, 1000000)
    text = dt.date_time_string(seconds - 11644473600)
    return text + (".%06d" % fraction if fraction else "")


def timestamp_debug(v):
    if v > 265046774399999999:
        return "0x%08x" % v
    return "%s (0x%08x)" % (timestamp(v), v)


VERSION = st.sampled_from([(2, 0), (2, 1)])
U4 = st.lists(dt.u(32), min_size=4, max_size=4)
U5 = st.lists(dt.u(32), min_size=5, max_size=5)
A4 = st.lists(ADDRESS, min_size=4, max_size=4)
A5 = st.lists(ADDRESS, min_size=5, max_size=5)
BITS = 2028 * 32
HEADER = st.fixed_dictionaries(dict(
    version=VERSION, number=dt.u(16), next=dt.u(16), block_size=dt.u(32),
    entries=dt.u(32), maximum=dt.u(32), empty=U4, hints=U4, updating=dt.u(32),
    user=U5,
    # Allocated ranges: (start, length).
    ranges=st.lists(st.tuples(
        st.one_of(st.integers(0, BITS - 1), st.integers(0, 70),
                  st.integers(BITS - 70, BITS - 1)),
        st.one_of(st.integers(1, 3), st.integers(1, 100))), max_size=5)))


def bitmap(ranges):
    bits = set()
    for start, length in ranges:
        bits.update(range(start, min(BITS, start + length)))
    words = [0] * 2028
    for bit in bits:
        words[bit // 32] |= 1 << (bit % 32)
    result = []
    for bit in sorted(bits):
        if result and result[-1][1] == bit:
            result[-1][1] = bit + 1
        else:
            result.append([bit, bit + 1])
    return words, result


def build_header(case, signature=0xC104CAC3):
    words, _ = bitmap(case["ranges"])
    major, minor = case["version"]
    data = struct.pack(
        "<IHHHHIII", signature, minor, major, case["number"], case["next"],
        case["block_size"], case["entries"], case["maximum"])
    data += struct.pack("<4I4II5I", *case["empty"], *case["hints"], case["updating"],
                        *case["user"])
    return data + struct.pack("<2028I", *words)


ENTRY = st.fixed_dictionaries(dict(
    hash=dt.u(32), next=ADDRESS, rankings=ADDRESS, reuse=dt.u(32), refetch=dt.u(32),
    state=dt.u(32), time=TIME_ANY, key_size=dt.u(32), long_key=dt.u(32), sizes=U4,
    addresses=A4, flags=dt.u(32), unknown=st.binary(min_size=16, max_size=16),
    self_hash=dt.u(32),
    key=st.one_of(
        dt.ASCII.map(str.encode), st.binary(max_size=20),
        st.integers(155, 170).map(lambda n: b"abcdefghij" * 16 + b"z" * (n - 160)
                                  if n >= 160 else b"k" * n)),
    junk=st.binary(max_size=6)))


def build_entry(e):
    key = (e["key"][:160] + b"\0" + e["junk"])[:160].ljust(160, b"\0")
    return struct.pack(
        "<IIIIIIQII4I4II16sI", e["hash"], e["next"], e["rankings"], e["reuse"],
        e["refetch"], e["state"], e["time"], e["key_size"], e["long_key"], *e["sizes"],
        *e["addresses"], e["flags"], e["unknown"], e["self_hash"]) + key


def key_text(e):
    key = e["key"][:160].split(b"\0")[0]
    return "".join(chr(c) if c < 128 else "\ufffd" for c in key)


def entry_equal(entry, e, what):
    equal((entry.hash, entry.key, entry.creation_time, entry.next.value,
           entry.rankings_node.value),
          (e["hash"], key_text(e), e["time"], e["next"], e["rankings"]), what)
    equal(attributes(entry.next), model_address(e["next"]), what + " next")
    equal(attributes(entry.rankings_node), model_address(e["rankings"]),
          what + " rankings node")


def address_pairs_equal(text, label, expected):
    actual = [v for k, v in dt.values(text) if k == label]
    equal(len(actual), len(expected), f"number of {label!r}")
    for a, e in zip(actual, expected):
        require(address_printed(a, e), f"{label} 0x{e:08x}: {a!r}")


def header_pairs(case):
    _, ranges = bitmap(case["ranges"])
    join = lambda values: ", ".join(str(v) for v in values)
    return [
        ("Signature", "0xc104cac3"), ("Minor format version", case["version"][1]),
        ("Major format version", case["version"][0]), ("File number", case["number"]),
        ("Next file number", case["next"]), ("Block size", case["block_size"]),
        ("Number of entries", case["entries"]),
        ("Maximum number of entries", case["maximum"]), ("Empty", join(case["empty"])),
        ("Hints", join(case["hints"])), ("Updating", dt.hex8(case["updating"])),
        ("User", join(case["user"])),
    ] + [("Block range", f"{a} - {b} ({b - a})") for a, b in ranges]


def quiet(function, *arguments):
    logging.disable(logging.CRITICAL)
    try:
        return function(*arguments)
    finally:
        logging.disable(logging.NOTSET)


BLOCK_FILE = st.tuples(
    HEADER, dt.many(st.tuples(ENTRY, st.integers(0, 3)), max_size=4))


def build_block_file(value):
    header, entries = value
    data = build_header(header)
    offsets = []
    for entry, gap in entries:
        data += b"\xcc" * (256 * gap)
        offsets.append(len(data))
        data += build_entry(entry)
    return data, offsets


def check_block_file(value, ctx):
    header, entries = value
    data, offsets = build_block_file(value)
    path = ctx.write(data, "data_1")
    ctx.note(len(entries) > 1 or len(header["ranges"]) > 1, data,
             (header["ranges"], [e["key"] for e, _ in entries]))
    recorder = dt.Recorder()
    parser = chrome_cache.DataBlockFile(debug=True, output_writer=recorder)
    parser.Open(path)
    dt.pairs_equal(recorder.text, header_pairs(header))
    equal((parser.block_size, parser.format_version, parser.number_of_entries),
          (header["block_size"], "%d.%d" % header["version"], header["entries"]),
          "attributes")
    plain = chrome_cache.DataBlockFile(output_writer=dt.Recorder())
    plain.Open(path)
    # Entries can be read in any order and more than once.
    order = list(range(len(entries)))[::-1] + list(range(len(entries)))
    for index in order:
        e = entries[index][0]
        recorder.parts = []
        entry = quiet(parser.ReadCacheEntry, offsets[index])
        entry_equal(entry, e, f"entry {index}")
        entry_equal(quiet(plain.ReadCacheEntry, offsets[index]), e, f"entry {index}")
        text = recorder.text
        expected = [
            ("Hash", dt.hex8(e["hash"])), ("Reuse count", e["reuse"]),
            ("Refetch count", e["refetch"]), ("State", dt.hex8(e["state"])),
            ("Creation time", timestamp_debug(e["time"]))]
        expected += [(f"Data stream size: {i}", v) for i, v in enumerate(e["sizes"])]
        expected += [("Flags", dt.hex8(e["flags"])),
                     ("Self hash", dt.hex8(e["self_hash"]))]
        if key_text(e).isprintable() and key_text(e):
            expected.append(("Key", key_text(e)))
        dt.pairs_equal(text, expected)
        address_pairs_equal(text, "Next address", [e["next"]])
        address_pairs_equal(text, "Rankings node address", [e["rankings"]])
        for i, v in enumerate(e["addresses"]):
            address_pairs_equal(text, f"Data stream address: {i}", [v])
    end = len(data)
    for wrong in (end - 255, end, end + 1):
        if not entries and wrong < end:
            continue
        try:
            quiet(parser.ReadCacheEntry, wrong)
        except dt.errors.ParseError:
            continue
        raise Violation(f"entry at {wrong} of a file of {end} bytes was read")
    parser.Close()
    plain.Close()
    dt.files_unchanged(path, data)


INDEX = st.fixed_dictionaries(dict(
    version=VERSION, entries=dt.u(32), stored=dt.u(32), last=dt.u(32),
    unknown=st.lists(dt.u(32), min_size=4, max_size=4), table_size=dt.u(32),
    time=TIME_ANY, filled=dt.u(32), sizes=U5, heads=A5, tails=A5, transaction=ADDRESS,
    operation=dt.u(32), operation_list=dt.u(32),
    table=dt.many(st.one_of(st.just(0), ADDRESS), max_size=12),
    rest=st.binary(max_size=3)))


def build_index(case, signature=0xC103CAC3):
    major, minor = case["version"]
    k = case["unknown"]
    data = struct.pack(
        "<IHHIIIIIIIIQ", signature, minor, major, case["entries"], case["stored"],
        case["last"], k[0], k[1], case["table_size"], k[2], k[3], case["time"])
    data += b"\x11" * 208
    data += b"\x22" * 8 + struct.pack(
        "<I5I5I5IIII", case["filled"], *case["sizes"], *case["heads"], *case["tails"],
        case["transaction"], case["operation"], case["operation_list"]) + b"\x33" * 28
    return data + struct.pack("<%dI" % len(case["table"]), *case["table"]) + case["rest"]


def table_equal(parser, table):
    expected = {i: v for i, v in enumerate(table) if v}
    equal({i: a.value for i, a in parser.index_table.items()}, expected, "index table")
    equal(list(parser.index_table), sorted(expected), "order of the index table")
    for i, a in parser.index_table.items():
        equal(attributes(a), model_address(expected[i]), f"address {i}")


def check_index(value, ctx):
    case, other = value
    data = build_index(case)
    path = ctx.write(data, "index")
    ctx.note(sum(1 for v in case["table"] if v) > 1, data, case["table"])
    recorder = dt.Recorder()
    parser = chrome_cache.IndexFile(debug=True, output_writer=recorder)
    parser.Open(path)
    parser.Close()
    text = recorder.text
    table_equal(parser, case["table"])
    equal((parser.creation_time, parser.format_version),
          (case["time"], "%d.%d" % case["version"]), "attributes")
    k = case["unknown"]
    dt.pairs_equal(text, [
        ("Signature", "0xc103cac3"), ("Minor format version", case["version"][1]),
        ("Major format version", case["version"][0]),
        ("Number of entries", case["entries"]), ("Stored data size", case["stored"]),
        ("Last created file number", "%d (f_%06x)" % (case["last"], case["last"])),
        ("Unknown1", dt.hex8(k[0])), ("Unknown2", dt.hex8(k[1])),
        ("Table size", case["table_size"]), ("Unknown3", dt.hex8(k[2])),
        ("Unknown4", dt.hex8(k[3])), ("Creation time", timestamp_debug(case["time"])),
        ("Filled flag", dt.hex8(case["filled"])),
    ] + [("Size", v) for v in case["sizes"]] + [
        ("Operation", dt.hex8(case["operation"])),
        ("Operation list", dt.hex8(case["operation_list"]))])
    for i, v in enumerate(case["heads"]):
        address_pairs_equal(text, f"Head address: {i}", [v])
    for i, v in enumerate(case["tails"]):
        address_pairs_equal(text, f"Tail address: {i}", [v])
    address_pairs_equal(text, "Transaction address", [case["transaction"]])
    printed = [k for k, _ in dt.values(text) if k.startswith("Cache address: ")]
    sequences_equal(printed, [f"Cache address: {i}" for i, v in enumerate(case["table"])
                              if v], "printed addresses")
    # The same object, on another file: nothing of the first file is left.
    path2 = ctx.write(build_index(other), "index2")
    parser.Open(path2)
    parser.Close()
    table_equal(parser, other["table"])
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    (block, index), which, kind, number = value
    case = dict(block if which == "block" else index)
    signature = 0xC104CAC3 if which == "block" else 0xC103CAC3
    cls = chrome_cache.DataBlockFile if which == "block" else chrome_cache.IndexFile
    build = build_header if which == "block" else build_index
    header_size = 8192 if which == "block" else 368
    if kind == "signature":
        wrong = signature ^ (1 << (number % 32))
        if number % 5 == 0:
            wrong = 0xC104CAC3 ^ 0xC103CAC3 ^ signature
        data = build(case, wrong)
    elif kind == "version":
        case["version"] = [(1, 0), (2, 2), (3, 0), (20, 0), (0, 2), (2, 256), (2, 10),
                           (65535, 0)][number % 8]
        if number % 3 == 0:
            # A bit of the minor or major format version, other than 2.0 or 2.1.
            bit = 1 + number // 3 % 31
            case["version"] = (2 ^ (1 << (bit - 16)), 0) if bit > 15 else (2, 1 << bit)
        data = build(case)
    else:
        data = build(case)[:number % header_size]
    path = ctx.write(data, "reject")
    ctx.note(True, data, (which, kind, number), labels=[kind])
    dt.rejected(cls, path, f"{which} {kind} {number}")
    if kind == "signature" and number % 5 == 0:
        return
    try:
        chrome_cache.ChromeCacheParser(output_writer=dt.Recorder()).ParseFile(path)
    except dt.errors.ParseError:
        return
    raise Violation(f"{which} {kind} {number}: accepted by ParseFile")


def check_parse_file(value, ctx):
    which, case = value
    data = build_block_file(case)[0] if which == "block" else build_index(case)
    path = ctx.write(data, "file")
    ctx.note(True, data, which)
    recorder = dt.Recorder()
    chrome_cache.ChromeCacheParser(
        debug=True, output_writer=recorder).ParseFile(path)
    cls = chrome_cache.DataBlockFile if which == "block" else chrome_cache.IndexFile
    _, text = dt.read_file(cls, path)
    equal(recorder.text, text, "debug output of ParseFile")


# Entries in a directory: per entry (file number, slot) is drawn by position.
CHAINS = st.fixed_dictionaries(dict(
    files=st.integers(1, 3),
    chains=st.lists(
        st.lists(st.fixed_dictionaries(dict(
            file=st.integers(0, 2), time=TIME_ANY, key=st.one_of(
                dt.ASCII.map(str.encode), st.binary(min_size=1, max_size=12).map(
                    lambda b: b.replace(b"\n", b"n").replace(b"\r", b"r"))),
            gap=st.integers(0, 2))),
            min_size=1, max_size=5), max_size=4),
    # Chains are read up to 64 entries.
    repeat=st.sampled_from([1] * 12 + [7, 8, 13]),
    holes=st.lists(st.integers(0, 3), min_size=4, max_size=4),
    missing=st.sampled_from([None, None, None, 0, 1, 2]),
    unsupported=st.booleans(), debug=st.booleans()))
BLANK_HEADER = dict(
    version=(2, 0), number=0, next=0, block_size=256, entries=0, maximum=0,
    empty=[0] * 4, hints=[0] * 4, updating=0, user=[0] * 5, ranges=[])
BLANK_INDEX = dict(
    version=(2, 1), entries=0, stored=0, last=0, unknown=[0] * 4, table_size=0, time=0,
    filled=0, sizes=[0] * 5, heads=[0] * 5, tails=[0] * 5, transaction=0, operation=0,
    operation_list=0, rest=b"")
BLANK_ENTRY = dict(
    hash=0, next=0, rankings=0, reuse=0, refetch=0, state=0, key_size=0, long_key=0,
    sizes=[0] * 4, addresses=[0] * 4, flags=0, unknown=bytes(16), self_hash=0, junk=b"")


def check_directory(case, ctx):
    blocks = [[] for _ in range(3)]
    table, lines, used = [], [], set()
    placed = []
    chains = [[dict(item) for item in (chain * case["repeat"])[:64]]
              for chain in case["chains"]]
    for chain in chains:
        addresses = []
        for item in chain:
            # The first entry decides which files are opened: links go to those.
            number = item["file"] % case["files"]
            blocks[number].extend([None] * item["gap"])
            address = 0xA0000000 | (number << 16) | len(blocks[number])
            blocks[number].append(item)
            addresses.append((number, address))
        placed.append(addresses)
    heads = {a[0][0] for a in placed}
    for index, (chain, addresses) in enumerate(zip(chains, placed)):
        table.extend([0] * case["holes"][index % 4])
        table.append(addresses[0][1])
        for position, item in enumerate(chain):
            item["next"] = (
                addresses[position + 1][1] if position + 1 < len(chain) else 0)
        for position, item in enumerate(chain):
            if addresses[position][0] not in heads:
                break
            lines.append((timestamp(item["time"]), key_text(item)))
            used.add(addresses[position][0])
    missing = case["missing"] if case["missing"] in heads else None
    if case["unsupported"]:
        table.append(0xD0000001)
    with ctx.directory() as path:
        for number in range(3):
            if number == missing:
                continue
            data = build_header(BLANK_HEADER)
            for item in blocks[number]:
                if item is None:
                    data += b"\xee" * 256
                else:
                    data += build_entry(dict(BLANK_ENTRY, **{
                        k: item[k] for k in ("time", "key", "next")}))
            with open(os.path.join(path, f"data_{number}"), "wb") as file_object:
                file_object.write(data)
        with open(os.path.join(path, "index"), "wb") as file_object:
            file_object.write(build_index(dict(BLANK_INDEX, table=table)))
        ctx.note(len(lines) > 1, repr(case), lines[:4],
                 labels=["missing" if missing is not None else "complete"])
        parser = chrome_cache.ChromeCacheParser(
            debug=case["debug"], output_writer=dt.Recorder())
        output = io.StringIO()
        logging.disable(logging.CRITICAL)
        try:
            with contextlib.redirect_stdout(output):
                parser.ParseDirectory(path)
            failed = False
        except dt.errors.ParseError:
            failed = True
        finally:
            logging.disable(logging.NOTSET)
        equal(failed, missing is not None or case["unsupported"], "parse error")
        if not failed:
            expected = "".join(f"{t}\t{k}\n" for t, k in lines)
            equal(output.getvalue(), expected, "printed entries")
        os.remove(os.path.join(path, "index"))
        try:
            parser.ParseDirectory(path)
        except dt.errors.ParseError:
            return
        raise Violation("directory without an index accepted")


GENERATORS = {
    "chrome_cache_data": st.tuples(HEADER, st.just([])).map(
        lambda v: build_block_file(v)[0]),
    "chrome_cache_index": INDEX.map(build_index),
}
SUBTESTS = [
    SubTest("hash", KEY, check_hash, 1500, 100000),
    SubTest("address", ADDRESS, check_address, 2000, 200000),
    SubTest("block_file", BLOCK_FILE, check_block_file, 150, 5000),
    SubTest("index", st.tuples(INDEX, INDEX), check_index, 200, 8000),
    SubTest("rejects", st.tuples(
        st.tuples(HEADER, INDEX), st.sampled_from(["block", "index"]),
        st.sampled_from(["signature", "version", "truncated"]),
        st.integers(0, 100000)), check_rejected, 150, 4000),
    SubTest("parse_file", st.one_of(
        st.tuples(st.just("block"), BLOCK_FILE), st.tuples(st.just("index"), INDEX)),
        check_parse_file, 60, 1000),
    SubTest("directory", CHAINS, check_directory, 200, 8000),
]
