"""P27: LevelDB log, descriptor and sorted tables files."""

import struct

import dt
import ldb
from vf import SubTest, Violation, equal, sequences_equal, st

from dtformats import leveldb

PROPERTY = "P27"
TITLE = "LevelDB: every log record and every table entry is returned, in order"
STATEMENT = (
    "For every LevelDB write-ahead log, however its records are fragmented over the "
    "32 KiB pages, debug output reports each record once and in order with its file "
    "offset, sequence number and every put and deletion with its complete key and "
    "value; a descriptor file likewise reports every version edit value. For every "
    "sorted tables file ReadTableEntries yields every entry of every data block in "
    "order, with the full (prefix-expanded) key, sequence number, value type and "
    "value, whatever the restart interval, amount of key sharing and the compression "
    "(none, Snappy, zstd) of each block. Variable-size integers are decoded exactly "
    "with the number of bytes used. A wrong signature, compression, value type or "
    "tag, and sizes that exceed the data are parse errors, never shortened data.")
QUANTIFIER = (
    "every sequence of records of any size and alignment to the page boundary, every "
    "set of table blocks, keys, values, restart intervals and compressions")
WHY = ("A test decodes two variable-size integers; there are no tests or test files "
       "for the log and table readers.")
FILES = ["dtformats/leveldb.py", "dtformats/leveldb.yaml", "dtformats/leveldb.debug.yaml"]
MECHANISM = [
    ("fragments", "leveldb.LevelDBDatabaseLogFile.ReadFileObject"),
    ("records", "leveldb.LevelDBDatabaseLogFile._ReadRecord"),
    ("edits", "leveldb.LevelDBDatabaseDescriptorFile._ReadRecord"),
    ("tables", "leveldb.LevelDBDatabaseTableFile.ReadTableEntries"),
    ("varint", "leveldb.LevelDBDatabaseFile._ReadVariableSizeInteger"),
]
OBSERVE = ["debug output of Open", "entries yielded by ReadTableEntries",
           "result of _ReadVariableSizeInteger"]
TECHNIQUE = "property-based round-trip testing against an independent LevelDB writer"
RULE = "two or more records or entries, or a record that crosses a page"
ASSUMPTIONS = ["checksums are not verified by the readers and are not asserted"]

SEQUENCE = st.one_of(st.integers(0, 1000), st.integers(0, (1 << 56) - 1))
SMALL = st.one_of(st.binary(max_size=12), dt.ASCII.map(str.encode),
                  st.integers(120, 140).map(lambda n: b"v" * n))
VALUE = st.one_of(
    st.tuples(st.just(1), SMALL, SMALL), st.tuples(st.just(0), SMALL, st.just(b"")))
RECORD = st.fixed_dictionaries(dict(
    sequence=dt.u(64), values=dt.many(VALUE, max_size=4),
    # Fill the page up to so many bytes before its end (None: do not).
    fill=st.one_of(st.none(), st.none(), st.integers(-12, 20)),
    pages=st.integers(0, 1)))


def body(values):
    return b"".join(
        bytes([t]) + ldb.slice_(k) + (ldb.slice_(v) if t else b"")
        for t, k, v in values)


def build_log(case):
    """Returns the data and [(offset, sequence, values)]."""
    records, expected = [], []
    for item in case:
        values = list(item["values"])
        used = len(ldb.log_file(records)[0]) if item["fill"] is not None else 0
        if item["fill"] is not None:
            # A value that ends the page at a chosen distance of its end.
            left = ldb.PAGE - used % ldb.PAGE - 7 - item["fill"] - 12 - len(body(values))
            left += item["pages"] * (ldb.PAGE - 7)
            size = left - 1 - 2 - 3
            if size > 16383:
                values.append((1, b"K", b"\x5a" * size))
            elif size > 300:
                values.append((1, b"K", b"\x5a" * (size + 1)))
        records.append(
            struct.pack("<QI", item["sequence"], len(values)) + body(values))
        expected.append((item["sequence"], values))
    data, layout = ldb.log_file(records)
    return data, [
        (offset, blocks, sequence, values)
        for (offset, blocks), (sequence, values) in zip(layout, expected)]


TYPES = {0: "kTypeDeletion", 1: "kTypeValue"}


def check_log(case, ctx):
    data, expected = build_log(case)
    path = ctx.write(data, "000003.log")
    ctx.note(len(case) > 1 or any(len(b) > 1 for _, b, _, _ in expected), data,
             [(s, len(b), len(v)) for _, b, s, v in expected],
             labels=sorted({f"block type {k}" for _, bl, _, _ in expected
                            for k, _ in bl}))
    _, text = dt.read_file(leveldb.LevelDBDatabaseLogFile, path)
    pairs, dumps = [], []
    for offset, blocks, sequence, values in expected:
        for kind, fragment in blocks:
            pairs.extend([("Checksum", "0x12345678"),
                          ("Record data size", len(fragment)), ("Record type", kind)])
        pairs.extend([("Offset", offset), ("Sequence number", sequence),
                      ("Number of values", len(values))])
        for kind, key, value in values:
            pairs.extend([("Value type", f"{kind} ({TYPES[kind]})"),
                          ("Key size", len(key))])
            dumps.append(("Key", key))
            if kind == 1:
                pairs.append(("Value size", len(value)))
                dumps.append(("Value", value))
    dt.pairs_equal(text, pairs)
    sequences_equal([d for d in dt.dumps(text) if d[0] in ("Key", "Value")], dumps,
                    "keys and values")
    dt.read_file(leveldb.LevelDBDatabaseLogFile, path, debug=False)
    dt.files_unchanged(path, data)


V64 = dt.u(64)
EDIT = st.one_of(
    st.tuples(st.just(1), dt.UNICODE1),
    st.tuples(st.sampled_from([2, 3, 4, 9]), V64),
    st.tuples(st.just(5), V64, SMALL), st.tuples(st.just(6), V64, V64),
    st.tuples(st.just(7), V64, V64, V64, SMALL, SMALL))
TAGS = {1: "kComparator", 2: "kLogNumber", 3: "kNextFileNumber", 4: "kLastSequence",
        5: "kCompactPointer", 6: "kDeletedFile", 7: "kNewFile", 9: "kPrevLogNumber"}
NAMES = {2: "Log number", 3: "Next file number", 4: "Last sequence number",
         9: "Previous log number"}


def build_edit(edit):
    data = ldb.varint(edit[0])
    for value in edit[1:]:
        if isinstance(value, int):
            data += ldb.varint(value)
        else:
            data += ldb.slice_(value.encode() if isinstance(value, str) else value)
    return data


def build_descriptor(case):
    return ldb.log_file([b"".join(build_edit(e) for e in r) for r in case])


def check_descriptor(case, ctx):
    data, layout = build_descriptor(case)
    path = ctx.write(data, "MANIFEST-000001")
    ctx.note(sum(len(r) for r in case) > 1, data, case)
    _, text = dt.read_file(leveldb.LevelDBDatabaseDescriptorFile, path)
    pairs, dumps = [], []
    for (offset, _), record in zip(layout, case):
        pairs.append(("Offset", offset))
        for edit in record:
            pairs.append(("Value tag", f"{edit[0]} ({TAGS[edit[0]]})"))
            if edit[0] == 1:
                pairs.extend([("Name string size", len(edit[1].encode())),
                              ("Name string", edit[1])])
            elif edit[0] in NAMES:
                pairs.append((NAMES[edit[0]], edit[1]))
            else:
                pairs.append(("Level", edit[1]))
                if edit[0] >= 6:
                    pairs.append(("File number", edit[2]))
                if edit[0] == 7:
                    pairs.append(("File size", edit[3]))
                slices = {5: ["Key"], 6: [],
                          7: ["Smallest record key", "Largest record key"]}[edit[0]]
                for name, value in zip(slices, edit[len(edit) - len(slices):]):
                    pairs.append((f"{name} size", len(value)))
                    dumps.append((name, value))
    dt.pairs_equal(text, pairs)
    names = ("Key", "Smallest record key", "Largest record key")
    sequences_equal([d for d in dt.dumps(text) if d[0] in names], dumps, "keys")
    dt.files_unchanged(path, data)


KEY = st.one_of(
    st.binary(max_size=10),
    st.tuples(st.sampled_from([b"", b"key", b"prefix/of/key/"]), st.binary(max_size=3))
    .map(b"".join), st.integers(100, 150).map(lambda n: b"long" * (n // 4)))
ENTRY = st.tuples(KEY, SEQUENCE, st.one_of(
    st.sampled_from([0, 1, 1]), st.integers(0, 255)),
    st.one_of(SMALL, st.integers(0, 3000).map(lambda n: b"xy" * n)))
TABLE = st.fixed_dictionaries(dict(
    blocks=dt.many(st.lists(ENTRY, max_size=6), max_size=4),
    interval=st.sampled_from([1, 2, 3, 16]),
    share=st.sampled_from([None, None, 0, 1, 5]), sort=st.booleans(),
    compression=st.lists(st.integers(0, 2), min_size=1, max_size=3),
    index_compression=st.integers(0, 2), gap=st.sampled_from([0, 0, 5, 300]),
    prefix=st.sampled_from([b"", b"", bytes(200), bytes(20000)])))


def build_table(case, **kwargs):
    blocks = [sorted(b) if case["sort"] else b for b in case["blocks"]]
    data = ldb.table_file(
        blocks, case["interval"], case["share"], case["compression"], case["gap"],
        index_compression=case["index_compression"], prefix=case["prefix"], **kwargs)
    return data, [e for b in blocks for e in b]


def table_entries(parser):
    return [(e.key, e.sequence_number, e.value_type, e.value)
            for e in parser.ReadTableEntries()]


def check_table(case, ctx):
    data, expected = build_table(case)
    path = ctx.write(data, "000005.ldb")
    ctx.note(len(expected) > 1, data, expected[:3],
             labels=[f"compression {c}" for c in set(case["compression"])])
    for debug in (False, True):
        recorder = dt.Recorder()
        parser = leveldb.LevelDBDatabaseTableFile(debug=debug, output_writer=recorder)
        parser.Open(path)
        sequences_equal(table_entries(parser), expected, "table entries")
        # A second iteration yields the same.
        sequences_equal(table_entries(parser), expected, "table entries, again")
        parser.Close()
    # Debug mode reports the same entries: index block entries are followed by
    # the entries of the data block they refer to, so only membership is checked.
    printed = [v for k, v in dt.values(recorder.text) if k == "Sequence number"]
    for _, sequence, _, _ in expected:
        if str(sequence) not in printed:
            raise Violation(f"sequence number {sequence} not in the debug output")
    dt.files_unchanged(path, data)


def raises(function, what):
    try:
        function()
    except dt.errors.ParseError:
        return
    raise Violation(f"{what}: accepted")


def check_table_rejected(value, ctx):
    case, kind, number = value
    case = dict(case)
    if not any(case["blocks"]):
        case["blocks"] = [[(b"k", 1, 1, b"v")]]
    case["blocks"] = [b for b in case["blocks"] if b]
    case["compression"] = [0]
    case["index_compression"] = 0
    case["prefix"] = b""
    data, expected = build_table(case)
    data = bytearray(data)
    if kind == "signature":
        data[-1 - number % 8] ^= 1 << (number % 7)
    elif kind == "truncated":
        del data[len(data) - 1 - number % len(data):]
        if bytes(data).endswith(b"\x57\xfb\x80\x8b\x24\x75\x47\xdb"):
            return
    elif kind == "compression":
        # Of the first data block.
        size = len(ldb.table_contents(
            [(k + ldb.suffix(s, t), v) for k, s, t, v in (
                sorted(case["blocks"][0]) if case["sort"] else case["blocks"][0])],
            case["interval"], case["share"]))
        data[size] = [3, 4, 128, 255][number % 4]
    elif kind == "shared":
        # The first entry cannot share anything.
        data[0] += 1 + number % 100
    elif kind == "short key":
        contents = b"\0" + bytes([number % 8]) + b"\0" + b"k" * (number % 8)
        contents += struct.pack("<II", 0, 1)
        data = single(contents)
    elif kind == "value size":
        contents = b"\0\x09" + ldb.varint(6 + number) + b"k" + bytes(8) + b"value"
        contents += struct.pack("<II", 0, 1)
        data = single(contents)
    elif kind == "key size":
        contents = b"\0" + ldb.varint(10 + number) + b"\0" + b"k" + bytes(8)
        contents += struct.pack("<II", 0, 1)
        data = single(contents)
    elif kind == "restarts":
        contents = b"\0\x09\x00k" + bytes(8) + struct.pack("<II", 0, 5 + number)
        data = single(contents)
    elif kind == "snappy":
        data = single(b"\xff" * (5 + number % 40), 1)
    elif kind == "zstd":
        data = single(b"\xff" * (5 + number % 40), 2)
    path = ctx.write(bytes(data), "reject.ldb")
    ctx.note(True, bytes(data), (kind, number), labels=[kind])

    def read():
        parser = leveldb.LevelDBDatabaseTableFile(output_writer=dt.Recorder())
        parser.Open(path)
        try:
            list(parser.ReadTableEntries())
        finally:
            parser.Close()

    raises(read, f"{kind} {number}")


def single(contents, compression=0):
    """A table file of which the only data block has these contents."""
    data = bytearray(contents + struct.pack("<BI", compression, 0))
    meta = varint_handle(len(data), 8)
    data += ldb.table_contents([]) + bytes(5)
    index = ldb.table_contents([(b"z" + bytes(8), varint_handle(0, len(contents)))])
    handle = varint_handle(len(data), len(index))
    data += index + bytes(5)
    return bytes(data) + (meta + handle).ljust(40, b"\0") + (
        b"\x57\xfb\x80\x8b\x24\x75\x47\xdb")


def varint_handle(offset, size):
    return ldb.varint(offset) + ldb.varint(size)


LOG_DAMAGE = st.tuples(
    st.sampled_from(["truncated", "value type", "key size", "value size", "header",
                     "tag", "edit size", "edit end", "utf8"]), st.integers(0, 5000))


def check_log_rejected(value, ctx):
    (kind, number), good = value
    cls = leveldb.LevelDBDatabaseLogFile
    head = struct.pack("<QI", 1, 1)
    if kind == "truncated":
        record = head + body([(1, b"key", b"value" * (number % 50 + 1))])
    elif kind == "value type":
        record = head + bytes([2 + number % 254]) + b"\1k\1v"
    elif kind == "key size":
        record = head + b"\1" + ldb.varint(4 + number) + b"key"
    elif kind == "value size":
        record = head + b"\1\1k" + ldb.varint(4 + number) + b"val"
    elif kind == "header":
        record = (head + b"\1\1k\1v")[:number % 12]
    else:
        cls = leveldb.LevelDBDatabaseDescriptorFile
        if kind == "tag":
            record = ldb.varint([0, 8, 10, 127, 128, 10000][number % 6]) + b"\1\1\1"
        elif kind == "edit size":
            record = b"\1" + ldb.varint(6 + number) + b"names"
        elif kind == "edit end":
            record = build_edit((7, 300, 400, 500, b"small", b"large"))
            record = record[:1 + number % (len(record) - 1)]
        else:
            record = b"\1\3\xff\xfea"
    records = [record]
    if good and cls is leveldb.LevelDBDatabaseLogFile:
        records.insert(0, head + body([(1, b"a", b"b")]))
    data, _ = ldb.log_file(records)
    if kind == "truncated":
        data = data[:len(data) - 1 - number % (len(record) + 6)]
    path = ctx.write(data, "reject.log")
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(cls, path, f"{kind} {number}")


INTEGER = st.one_of(dt.u(64), st.integers(0, 63).map(lambda n: 1 << n),
                    st.integers(0, 9).map(lambda n: (1 << (7 * n)) - 1 if n else 0))


def check_varint(value, ctx):
    integer, rest = value
    data = ldb.varint(integer)
    ctx.note(integer > 127, data + rest, integer)
    parser = leveldb.LevelDBDatabaseFile()
    equal(parser._ReadVariableSizeInteger(data + rest), (integer, len(data)),
          f"variable-size integer {data.hex()}")
    if len(data) > 1:
        raises(lambda: parser._ReadVariableSizeInteger(data[:-1]), "incomplete integer")


GENERATORS = {
    "leveldb_log": st.lists(RECORD.map(lambda r: dict(r, fill=None)), max_size=4).map(
        lambda c: build_log(c)[0]),
    "leveldb_descriptor": st.lists(st.lists(EDIT, max_size=5), max_size=3).map(
        lambda c: build_descriptor(c)[0]),
    "leveldb_table": TABLE.map(lambda c: build_table(dict(c, prefix=b""))[0]),
}
SUBTESTS = [
    SubTest("log", dt.many(RECORD, max_size=6), check_log, 250, 8000),
    SubTest("descriptor", dt.many(st.lists(EDIT, max_size=6), max_size=5),
            check_descriptor, 250, 8000),
    SubTest("table", TABLE, check_table, 300, 10000),
    SubTest("table_rejects", st.tuples(TABLE, st.sampled_from(
        ["signature", "truncated", "compression", "shared", "short key", "value size",
         "key size", "restarts", "snappy", "zstd"]), st.integers(0, 3000)),
        check_table_rejected, 200, 5000),
    SubTest("log_rejects", st.tuples(LOG_DAMAGE, st.booleans()), check_log_rejected,
            200, 5000),
    SubTest("varint", st.tuples(INTEGER, st.binary(max_size=3)), check_varint,
            600, 30000),
]
