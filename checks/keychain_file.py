"""P32: MacOS keychain database files."""

import struct

import dt
from vf import SubTest, equal, sequences_equal, st

from dtformats import keychain

PROPERTY = "P32"
TITLE = "Keychain: the tables, columns and records are those stored in the file"
STATEMENT = (
    "For every MacOS keychain database file, the tables are those defined by the "
    "schema information records, in order, each with the columns defined by the schema "
    "attributes records (name, or the 4 characters of the identifier when it has no "
    "name, identifier and data type, each of which can be absent) and with every record "
    "of the table in order of "
    "the record offsets (an offset of 0 is not a record), where a value is the "
    "string, signed or unsigned 32-bit integer, date and time or binary data stored "
    "at its offset and None when its offset is 0; the tables, records, offsets, "
    "the data of each record and value and that after the records are reported in debug "
    "mode. Values out of bounds, records "
    "of unknown tables, and data that ends early are parse errors.")
QUANTIFIER = ("every schema, every record, value and NULL pattern, every key data size, "
              "every order of tables and records")
WHY = "One file is opened by the tests, without comparing what is read."
FILES = ["dtformats/keychain.py", "dtformats/keychain.yaml",
         "dtformats/keychain.debug.yaml"]
MECHANISM = [
    ("schema", "KeychainDatabaseFile._ReadRecordSchemaInformation, "
     "_ReadRecordSchemaAttributes, _ReadRecordSchemaIndexes"),
    ("records", "KeychainDatabaseFile._ReadRecord"),
    ("tables", "KeychainDatabaseFile._ReadTable"),
]
OBSERVE = ["tables", "debug output of Open", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more records of a table with two or more columns"
ASSUMPTIONS = ["column names are unique per table",
               "the identifier of the attribute name (OID) is not read (as documented)"]

TABLE_NAMES = {
    0: "CSSM_DL_DB_SCHEMA_INFO", 1: "CSSM_DL_DB_SCHEMA_INDEXES",
    2: "CSSM_DL_DB_SCHEMA_ATTRIBUTES", 3: "CSSM_DL_DB_SCHEMA_PARSING_MODULE",
    10: "CSSM_DL_DB_RECORD_ANY", 11: "CSSM_DL_DB_RECORD_CERT",
    12: "CSSM_DL_DB_RECORD_CRL", 13: "CSSM_DL_DB_RECORD_POLICY",
    14: "CSSM_DL_DB_RECORD_GENERIC", 15: "CSSM_DL_DB_RECORD_PUBLIC_KEY",
    16: "CSSM_DL_DB_RECORD_PRIVATE_KEY", 17: "CSSM_DL_DB_RECORD_SYMMETRIC_KEY",
    18: "CSSM_DL_DB_RECORD_ALL_KEYS",
    0x80000000: "CSSM_DL_DB_RECORD_GENERIC_PASSWORD",
    0x80000001: "CSSM_DL_DB_RECORD_INTERNET_PASSWORD",
    0x80000002: "CSSM_DL_DB_RECORD_APPLESHARE_PASSWORD",
    0x80000003: "CSSM_DL_DB_RECORD_USER_TRUST",
    0x80000004: "CSSM_DL_DB_RECORD_X509_CRL",
    0x80000005: "CSSM_DL_DB_RECORD_UNLOCK_REFERRAL",
    0x80000006: "CSSM_DL_DB_RECORD_EXTENDED_ATTRIBUTE",
    0x80001000: "CSSM_DL_DB_RECORD_X509_CERTIFICATE",
    0x80008000: "CSSM_DL_DB_RECORD_METADATA"}
DATA_TYPES = ["STRING", "SINT32", "UINT32", "BIG_NUM", "REAL", "TIME_DATE", "BLOB",
              "MULTI_UINT32", "COMPLEX"]

STRING = st.text(alphabet=[chr(c) for c in range(0x20, 0x7F)], max_size=20)
DATE = st.datetimes().map(lambda d: d.strftime("%Y%m%d%H%M%SZ").rjust(15, "0"))
VALUES = {
    0: STRING, 1: dt.s(32), 2: dt.u(32), 5: DATE, 6: st.binary(max_size=30),
    4: st.binary(min_size=8, max_size=8), 7: st.binary(min_size=4, max_size=8),
    3: st.binary(min_size=4, max_size=8), 8: st.binary(min_size=4, max_size=8)}
KIND = st.sampled_from(sorted(VALUES) + [0, 2, 5, 6])
VALUES[None] = st.binary(min_size=4, max_size=8)


@st.composite
def database(draw):
    identifiers = draw(st.lists(
        st.sampled_from([3] + [i for i in TABLE_NAMES if i > 3] + [
            19, 0x80000007, 0x90000000, 0xFFFFFFFF]), unique=True, max_size=4))
    tables = []
    for identifier in identifiers:
        names = draw(st.lists(st.text("abcdefgXYZ", min_size=1, max_size=8),
                              unique=True, max_size=5))
        columns = []
        for number, name in enumerate(names):
            # A column is named, or else by the 4 characters of its identifier.
            if draw(st.booleans()):
                code = (name + "_" * 4)[:3] + str(number)
                columns.append((None, int.from_bytes(code.encode(), "big"), draw(KIND)))
            else:
                columns.append((name + "n", draw(dt.u(32)), draw(KIND)))
        # Any of these can be NULL.
        which = draw(st.integers(0, 14))
        if which < len(columns):
            name, attribute, kind = columns[which]
            columns[which] = draw(st.sampled_from([
                (name, attribute, None), (name, None, kind), (None, None, kind)]))
        records = []
        for _ in range(draw(st.integers(0, 3))):
            if draw(st.integers(0, 5)) == 5:
                records.append(None)
                continue
            values = [None if draw(st.integers(0, 3)) == 3 else draw(VALUES[kind])
                      for _, _, kind in columns]
            records.append((values, draw(st.one_of(
                st.just(b""), st.binary(min_size=4, max_size=20))),
                            draw(st.tuples(dt.u(32), dt.u(32), dt.u(32), dt.u(32)))))
        tables.append((identifier, draw(STRING), columns, records,
                       draw(st.booleans())))
    indexes = draw(st.lists(st.tuples(
        st.sampled_from([0, 1, 2] + identifiers), dt.u(32), dt.u(32), dt.u(32),
        dt.u(32)), max_size=3))
    return dict(tables=tables, indexes=indexes, shuffle=draw(st.booleans()),
                gap=draw(st.sampled_from([0, 0, 4, 12])),
                table_tail=draw(st.sampled_from([b"", b"\0\0\0\x08\0\0\0\0"])),
                trailing=draw(st.sampled_from([b"", b"tail"])))


def pad4(data):
    return data + b"\0" * (-len(data) % 4)


def build_value(kind, value):
    if kind == 0:
        data = value.encode("ascii")
        return pad4(struct.pack(">I", len(data)) + data)
    if kind == 1:
        return struct.pack(">i", value)
    if kind == 2:
        return struct.pack(">I", value)
    if kind == 5:
        return value.encode("ascii") + b"\0"
    if kind == 6:
        return pad4(struct.pack(">I", len(value)) + value)
    return value


def build_record(kinds, values, key=b"", head=(0, 1, 0, 0)):
    """Returns the record data, the value offsets and the data of each value."""
    offsets, data, parts = [], key, []
    base = 24 + 4 * len(kinds)
    for kind, value in zip(kinds, values):
        if value is None:
            offsets.append(0)
            parts.append(b"")
        else:
            offsets.append(base + len(data) + 1)
            part = build_value(kind, value)
            parts.append(part)
            data += part
    size = base + len(data)
    header = struct.pack(">IIIIII", size, head[0], head[1], head[2], len(key), head[3])
    return header + struct.pack(f">{len(offsets)}I", *offsets) + data, offsets, parts


ATTRIBUTE_KINDS = (2, 2, 2, 0, 6, 2)


def layout(case):
    """Returns [(identifier, [(record data or None, ...)])] for every table."""
    tables = [(0, "CSSM_DL_DB_SCHEMA_INFO", [], [], False),
              (2, "CSSM_DL_DB_SCHEMA_ATTRIBUTES", [], [], False),
              (1, "CSSM_DL_DB_SCHEMA_INDEXES", [], [], False)] + case["tables"]
    result = [(0, [build_record((2, 0), (t[0], t[1])) for t in tables])]
    attributes = []
    for identifier, _, columns, _, named in tables:
        for name, attribute, kind in columns:
            attributes.append(build_record(ATTRIBUTE_KINDS, (
                identifier, attribute, 0 if name else 2, name,
                b"\1\2" if named else None, kind)))
    result.append((2, attributes))
    result.append((1, [build_record((2,) * 5, i) for i in case["indexes"]]))
    for identifier, _, columns, records, _ in case["tables"]:
        kinds = [c[2] for c in columns]
        rows = []
        for record in records:
            if record is None:
                rows.append(None)
                continue
            values, key, head = record
            rows.append(build_record(kinds, values, key if kinds else b"", head))
        result.append((identifier, rows))
    return result


def build(case, expected=None):
    """Returns the file; appends the expected debug values to expected."""
    note = expected.append if expected is not None else lambda pair: None
    chunks, table_offsets, notes = [], [], []
    tables = layout(case)
    offset = 8 + 4 * len(tables)
    for number, (identifier, rows) in enumerate(tables):
        # The records of the schema are in order, the others may be stored in reverse.
        position = 28 + 4 * len(rows) + case["gap"]
        record_offsets = [0] * len(rows)
        body = b"\xee" * case["gap"]
        order = list(range(len(rows)))
        if case["shuffle"]:
            order.reverse()
        for index in order:
            if rows[index] is None:
                continue
            record_offsets[index] = position
            body += rows[index][0]
            position += len(rows[index][0])
        body += case["table_tail"]
        count = sum(1 for r in rows if r is not None)
        size = 28 + 4 * len(rows) + len(body)
        header = (size, identifier, count, 28 + 4 * len(rows), 1000 + number, number,
                  len(rows))
        chunks.append(struct.pack(f">{7 + len(rows)}I", *header, *record_offsets) + body)
        table_offsets.append(offset)
        offset += size
        pairs = [
            ("Data size", size),
            ("Record type", f"0x{identifier:08x} "
             f"({TABLE_NAMES.get(identifier, 'UNKNOWN')})"),
            ("Number of records", count),
            ("Records array offset", dt.hex8(28 + 4 * len(rows))),
            ("Unknown1", dt.hex8(1000 + number)), ("Unknown2", dt.hex8(number)),
            ("Number of records offsets", len(rows))]
        pairs.extend((f"Record offset: {i}", dt.hex8(o))
                     for i, o in enumerate(record_offsets))
        notes.append((pairs, identifier, rows))
    array_size = 8 + 4 * len(tables) + sum(len(c) for c in chunks)
    for pair in [("Signature", "kych"), ("Major format version", 1),
                 ("Minor format version", 0), ("Data size", 16),
                 ("Tables array offset", dt.hex8(20)), ("Unknown1", dt.hex8(0)),
                 ("Data size", array_size), ("Number of tables", len(tables))]:
        note(pair)
    for index, value in enumerate(table_offsets):
        note((f"Table offset: {index}", dt.hex8(value)))
    if expected is not None:
        columns = {t[0]: t[2] for t in case["tables"]}
        for pairs, identifier, rows in notes:
            expected.extend(pairs)
            for row in rows:
                if row is not None:
                    expected.extend(record_pairs(identifier, row, columns))
    return (b"kych" + struct.pack(">HHIII", 1, 0, 16, 20, 0)
            + struct.pack(f">{2 + len(tables)}I", array_size, len(tables),
                          *table_offsets)
            + b"".join(chunks) + case["trailing"])


def record_pairs(identifier, row, columns):
    data, offsets, parts = row
    size, index, unknown2, unknown3, key_size, unknown4 = struct.unpack(
        ">6I", data[:24])
    pairs = [("Data size", size), ("Record index", index),
             ("Unknown2", dt.hex8(unknown2)), ("Unknown3", dt.hex8(unknown3)),
             ("Key data size", key_size), ("Unknown4", dt.hex8(unknown4))]
    if identifier > 2 and not columns[identifier]:
        return pairs
    pairs.extend((f"Attribute value offset: {i}", dt.hex8(o))
                 for i, o in enumerate(offsets))
    integers = [struct.unpack(">I", p)[0] if len(p) == 4 else None for p in parts]
    if identifier == 0:
        size = struct.unpack(">I", parts[1][:4])[0]
        pairs.extend([("Relation identifier", dt.hex8(integers[0])),
                      ("Relation name size", size),
                      ("Relation name", parts[1][4:4 + size].decode())])
    elif identifier == 1:
        pairs.extend(zip(
            ("Relation identifier", "Index identifier", "Attribute identifier",
             "Index type", "Index data location"), map(dt.hex8, integers)))
    elif identifier == 2:
        name = "NULL"
        if parts[3]:
            size = struct.unpack(">I", parts[3][:4])[0]
            name = parts[3][4:4 + size].decode()
        types = ["NULL" if i is None else f"{i} (CSSM_DB_ATTRIBUTE_FORMAT_{DATA_TYPES[i]})"
                 for i in (integers[2], integers[5])]
        pairs.extend([
            ("Relation identifier", f"0x{integers[0]:08x} "
             f"({TABLE_NAMES.get(integers[0], 'UNKNOWN')})"),
            ("Attribute identifier",
             "NULL" if integers[1] is None else dt.hex8(integers[1])),
            ("Attribute name data type", types[0]), ("Attribute name", name),
            ("Attribute data type", types[1])])
    return pairs


def column_name(name, attribute):
    if name is None and attribute is not None:
        return attribute.to_bytes(4, "big").decode()
    return name


def expected_tables(case):
    result = [
        [0, "CSSM_DL_DB_SCHEMA_INFO", [], []],
        [2, "CSSM_DL_DB_SCHEMA_ATTRIBUTES", [], []],
        [1, "CSSM_DL_DB_SCHEMA_INDEXES", [], []]]
    for identifier, name, columns, records, _ in case["tables"]:
        columns = [(column_name(n, a), a, k) for n, a, k in columns]
        rows = []
        for record in records:
            if record is None:
                continue
            row = []
            for (column, _, kind), value in zip(columns, record[0]):
                if kind in (3, 4, 7, 8, None):
                    value = None
                elif kind == 6 and value is not None:
                    value = repr(value)
                row.append((column, value))
            rows.append(row)
        result.append([identifier, name, columns, rows])
    result[0][3] = [[("RelationID", t[0]), ("RelationName", t[1])] for t in result]
    for identifier, _, columns, _, _ in case["tables"]:
        for name, attribute, kind in columns:
            shown = column_name(name, attribute)
            result[1][3].append([
                ("RelationID", identifier), ("AttributeID", attribute),
                ("AttributeNameFormat", 0 if name else 2), ("AttributeName", shown),
                ("AttributeFormat", kind)])
    result[2][3] = [list(zip(
        ("RelationID", "IndexID", "AttributeID", "IndexType", "IndexedDataLocation"),
        i)) for i in case["indexes"]]
    return result


def check_file(case, ctx):
    pairs = []
    data = build(case, pairs)
    path = ctx.write(data, "keychain")
    ctx.note(any(len(t[2]) > 1 and sum(r is not None for r in t[3]) > 1
                 for t in case["tables"]), data,
             [(t[0], t[2], len(t[3])) for t in case["tables"]],
             labels=[f"tables {len(case['tables'])}",
                     "reverse" if case["shuffle"] else "in order"])
    for debug in (False, True):
        recorder = dt.Recorder()
        parser = keychain.KeychainDatabaseFile(debug=debug, output_writer=recorder)
        for _ in range(2):
            recorder.parts.clear()
            parser.Open(path)
            actual = []
            for table in parser.tables:
                actual.append([
                    table.relation_identifier, table.relation_name,
                    [(c.attribute_name, c.attribute_identifier, c.attribute_data_type)
                     for c in table.columns],
                    # The identifier of the attribute name is not supported.
                    [[(k, v) for k, v in r.items() if not (
                        table.relation_identifier == 2 and k == "AttributeNameID")]
                     for r in table.records]])
            sequences_equal(actual, expected_tables(case), "tables")
            parser.Close()
    dt.pairs_equal(recorder.text, pairs)
    parts = []
    for identifier, rows in layout(case):
        columns = {t[0]: t[2] for t in case["tables"]}.get(identifier)
        for row in rows:
            if row is not None and columns:
                if struct.unpack(">I", row[0][16:20])[0]:
                    parts.append(None)
                parts.extend(
                    (f"Attribute value: {i} ({column_name(*c[:2]) or 'NULL'})"
                     " data", part)
                    for i, (c, part) in enumerate(zip(columns, row[2])) if part)
    data_parts = []
    for identifier, rows in layout(case):
        columns = {t[0]: t[2] for t in case["tables"]}.get(identifier)
        count = 6 if identifier == 2 else len(columns or [])
        for row in rows:
            if row is not None and count:
                key_size = struct.unpack(">I", row[0][16:20])[0]
                data_parts.append(row[0][24 + 4 * count + key_size:])
    equal([d[1] for d in dt.dumps(recorder.text) if d[0] == "Attribute values data" and d[1]],
          [part for part in data_parts if part], "dumps of the values of a record")
    if not case["shuffle"] and all(t[2] or not any(t[3]) for t in case["tables"]):
        trailing = [
            (b"" if any(rows) else b"\xee" * case["gap"]) + case["table_tail"]
            for _, rows in layout(case)]
        equal([d[1] for d in dt.dumps(recorder.text) if d[0] == "Table trailing data"],
              [part for part in trailing if part], "dumps of the data after the records")
    dumps = [d for d in dt.dumps(recorder.text) if (
        d[0].startswith("Attribute value: ") and d[1]) or d[0] == "Key data"]
    equal(len(dumps), len(parts), "number of values dumped")
    for dump, part in zip(dumps, parts):
        if part is not None:
            equal(dump, part, "dump of value")
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, how, where = value
    case = dict(case, trailing=b"", table_tail=b"", shuffle=False)
    extra = (20, "t", [("c", 1, (0, 2, 5, 6)[where % 4])],
             [([("abc", 5, "20200101000000Z", b"abc")[where % 4]], b"", (0,) * 4)],
             False)
    case["tables"] = [t for t in case["tables"] if t[0] != 20] + [extra]
    data = build(case)
    record_size = len(layout(case)[-1][1][0][0])
    at = len(data) - record_size
    if how == "cut":
        data = data[:at + where % record_size]
    elif how == "signature":
        data = bytes(byte ^ (1 + where // 4 % 255) if index == where % 4 else byte
                     for index, byte in enumerate(data[:4])) + data[4:]
    elif how == "low":
        data = data[:at + 24] + struct.pack(">I", 1 + where % 28) + data[at + 28:]
    elif how == "high":
        data = data[:at + 24] + struct.pack(
            ">I", record_size + 1 + where) + data[at + 28:]
    elif how == "size":
        data = data[:at] + struct.pack(">I", where % 28) + data[at + 4:]
    elif how == "table":
        # A record of a table that is not in the schema.
        header = at - case["gap"] - 32
        data = data[:header + 4] + struct.pack(">I", 0x70000000 + where) + data[
            header + 8:]
    else:
        # An attribute value with a size beyond the record.
        if where % 4 in (1, 2):
            return
        data = data[:at + 28] + struct.pack(">I", 100 + where) + data[at + 32:]
    path = ctx.write(data, "reject")
    ctx.note(True, data, (how, where), labels=[how])
    dt.rejected(keychain.KeychainDatabaseFile, path, f"{how} {where}")


GENERATORS = {"keychain": database().map(build)}
SUBTESTS = [
    SubTest("tables", database(), check_file, 800, 15000),
    SubTest("rejected", st.tuples(
        database(), st.sampled_from(["cut", "signature", "low", "high", "size", "table",
                                     "value size"]), st.integers(0, 2000)),
            check_rejected, 250, 8000),
]
