"""P28: IndexedDB sorted tables files."""

import dt
import ldb
from vf import SubTest, Violation, equal, sequences_equal, st

from dtformats import indexeddb

PROPERTY = "P28"
TITLE = "IndexedDB: every entry is returned with its decoded key prefix"
STATEMENT = (
    "For every IndexedDB sorted tables file ReadEntries yields one entry per table "
    "entry, in order, whose key segments are the decimal database, object store and "
    "index identifiers (little-endian integers of the sizes in the prefix byte), for "
    "a key with prefix 0, 0, 0 the metadata type, and the remaining key bytes as "
    "printable text if there are any, with the sequence number, value type and value "
    "unchanged. A key that is too short for its prefix, or has no metadata type, is a "
    "parse error.")
QUANTIFIER = ("every combination of identifier sizes (8 x 8 x 4) and values, remaining "
              "key, value and distribution over compressed blocks")
WHY = "There are no tests or test files for this reader."
FILES = ["dtformats/indexeddb.py", "dtformats/leveldb.py"]
MECHANISM = [("prefix", "indexeddb.IndexedDBDatabaseTableFile._ReadKeyPrefix"),
             ("entries", "indexeddb.IndexedDBDatabaseTableFile.ReadEntries")]
OBSERVE = ["entries yielded by ReadEntries"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "an identifier of two or more bytes or a global metadata key"
ASSUMPTIONS = []


def identifier(sizes):
    # (size, value): the value may be smaller than the size suggests.
    return st.integers(1, sizes).flatmap(lambda n: st.tuples(
        st.just(n), st.one_of(st.integers(0, 3), st.integers(0, (1 << (8 * n)) - 1),
                              st.just(1 << (8 * n - 1)))))


KEY = st.one_of(
    st.tuples(identifier(8), identifier(8), identifier(4), st.none(),
              st.binary(max_size=8)),
    st.tuples(identifier(8), identifier(8), identifier(4), st.none(), st.just(b"")),
    st.tuples(*[st.integers(1, n).map(lambda n: (n, 0)) for n in (8, 8, 4)],
              st.integers(0, 255), st.binary(max_size=8)))
ENTRY = st.tuples(KEY, st.integers(0, (1 << 56) - 1), st.sampled_from([0, 1, 1, 7]),
                  st.binary(max_size=10))
FILE = st.tuples(dt.many(st.lists(ENTRY, max_size=5), max_size=3),
                 st.sampled_from([1, 3, 16]),
                 st.lists(st.integers(0, 2), min_size=1, max_size=3))


def build_key(key):
    (n1, v1), (n2, v2), (n3, v3), metadata, rest = key
    data = bytes([(n1 - 1) * 32 + (n2 - 1) * 4 + n3 - 1])
    data += v1.to_bytes(n1, "little") + v2.to_bytes(n2, "little")
    data += v3.to_bytes(n3, "little")
    if metadata is None and (v1, v2, v3) == (0, 0, 0) and not rest:
        rest = b"\0"
    return data + (b"" if metadata is None else bytes([metadata])) + rest


def segments(key):
    (_, v1), (_, v2), (_, v3), metadata, rest = key
    result = [str(v1), str(v2), str(v3)]
    if metadata is None and (v1, v2, v3) == (0, 0, 0):
        rest = rest or b"\0"
        metadata, rest = rest[0], rest[1:]
    if metadata is not None:
        result.append(str(metadata))
    if rest:
        result.append(repr(bytes(rest))[1:])
    return result


def build(value):
    blocks, interval, compression = value
    return ldb.table_file(
        [[(build_key(k), s, t, v) for k, s, t, v in b] for b in blocks], interval, None,
        compression)


def check(value, ctx):
    data = build(value)
    entries = [e for b in value[0] for e in b]
    path = ctx.write(data, "000005.ldb")
    ctx.note(any(k[3] is not None or k[0][0] > 1 or k[1][0] > 1 for k, _, _, _ in entries),
             data, [e[0] for e in entries[:3]])
    expected = [(segments(k), s, t, v) for k, s, t, v in entries]
    for debug in (False, True):
        parser = indexeddb.IndexedDBDatabaseTableFile(
            debug=debug, output_writer=dt.Recorder())
        parser.Open(path)
        sequences_equal(
            [(e.key_segments, e.sequence_number, e.value_type, e.value)
             for e in parser.ReadEntries()], expected, "entries")
        equal([e.key for e in parser.ReadTableEntries()],
              [build_key(e[0]) for e in entries], "table entries")
        parser.Close()
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    key, cut = value
    full = build_key(key)
    size = key[0][0] + key[1][0] + key[2][0] + 1
    if not any(v for _, v in key[:3]):
        size += 1
    short = full[:cut % size]
    data = ldb.table_file([[(short, 1, 1, b"v")]])
    path = ctx.write(data, "reject.ldb")
    ctx.note(True, data, short)
    parser = indexeddb.IndexedDBDatabaseTableFile(output_writer=dt.Recorder())
    parser.Open(path)
    try:
        entries = list(parser.ReadEntries())
    except dt.errors.ParseError:
        return
    finally:
        parser.Close()
    raise Violation(f"key {short.hex()} accepted as {entries[0].key_segments!r}")


GENERATORS = {"indexeddb": FILE.map(build)}
SUBTESTS = [
    SubTest("entries", FILE, check, 500, 20000),
    SubTest("rejects", st.tuples(KEY, st.integers(0, 40)), check_rejected, 200, 5000),
]
