"""P29: systemd journal files."""

import struct

import dt
from vf import SubTest, sequences_equal, st

from dtformats import systemd

PROPERTY = "P29"
TITLE = "systemd journal: every entry of the entry array chain is read with its data"
STATEMENT = (
    "For every systemd journal file (header of 208, 224 or 240 bytes), including one "
    "without entries, reading in debug mode reports the header values, every entry "
    "array of the chain with its offsets, and then every entry that the arrays refer "
    "to (skipping unset offsets), in order, with its sequence number, times, boot "
    "identifier, hash and items, each item followed by its data object, wherever the "
    "objects lie in the file. A wrong signature, header size, object type, object "
    "flag, an object that lies outside the file, or a chain of arrays that refers "
    "back to itself is a parse error.")
QUANTIFIER = ("every arrangement of entry arrays, entries and (shared) data objects at "
              "any offsets, every value of their fields")
WHY = "There are no tests or test files for this reader."
FILES = ["dtformats/systemd.py", "dtformats/systemd.yaml", "dtformats/systemd.debug.yaml"]
MECHANISM = [("walk", "systemd.SystemdJournalFile.ReadFileObject"),
             ("entry", "systemd.SystemdJournalFile._ReadEntryObject"),
             ("data", "systemd.SystemdJournalFile._ReadDataObject")]
OBSERVE = ["debug output of SystemdJournalFile.Open", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more entries or arrays"
ASSUMPTIONS = ["compressed payloads are not decompressed by the reader"]

TIME = st.one_of(
    st.integers(0, 253402300799999999), st.integers(0, 2000000),
    st.sampled_from([0, 1, 999999, 1000000, 1600000000000000]))
ID = st.binary(min_size=16, max_size=16)
HEADER = st.fixed_dictionaries(dict(
    compatible=dt.u(32), incompatible=dt.u(32), state=dt.u(8),
    reserved=st.binary(min_size=7, max_size=7), ids=st.lists(ID, min_size=4, max_size=4),
    size=st.sampled_from([208, 224, 240]),
    numbers=st.lists(dt.u(64), min_size=10, max_size=10), head=TIME, tail=TIME,
    monotonic=dt.u(64)))
DATA = st.fixed_dictionaries(dict(
    flags=st.sampled_from([0, 0, 1, 2]), values=st.lists(dt.u(64), min_size=6, max_size=6),
    data=st.binary(min_size=1, max_size=40)))
ENTRY = st.fixed_dictionaries(dict(
    sequence=dt.u(64), real=TIME, monotonic=dt.u(64), boot=ID, xor=dt.u(64),
    items=st.lists(st.tuples(st.integers(0, 9), dt.u(64)), min_size=1, max_size=4)))
JOURNAL = st.fixed_dictionaries(dict(
    header=HEADER, data=st.lists(DATA, min_size=1, max_size=4),
    entries=dt.many(ENTRY, max_size=5),
    # Per array: indexes of entries (or None for an unset offset).
    arrays=st.lists(st.lists(st.one_of(st.none(), st.integers(0, 9)), min_size=0,
                             max_size=4), max_size=3),
    order=st.randoms(use_true_random=False).map(lambda r: r.random()),
    gap=st.sampled_from([0, 8, 24])))


def place(case):
    """Lays out the objects; returns offsets per kind."""
    objects = [("data", i) for i in range(len(case["data"]))]
    objects += [("entry", i) for i in range(len(case["entries"]))]
    objects += [("array", i) for i in range(len(case["arrays"]))]
    seed = int(case["order"] * 1000003)
    keyed = sorted(range(len(objects)), key=lambda n: (n * 7919 + seed) * 104729 % 1009)
    offset = case["header"]["size"]
    offsets = {}
    for n in keyed:
        kind, i = objects[n]
        offset += case["gap"]
        offsets[kind, i] = offset
        if kind == "data":
            size = 64 + len(case["data"][i]["data"])
        elif kind == "entry":
            size = 64 + 16 * len(case["entries"][i]["items"])
        else:
            size = 24 + 8 * len(case["arrays"][i])
        offset += -(-size // 8) * 8
    return offsets, offset


def array_entries(case, index):
    result = []
    for number in case["arrays"][index]:
        if number is None or not case["entries"]:
            result.append(None)
        else:
            result.append(number % len(case["entries"]))
    return result


def build(case, signature=b"LPKSHHRH", header_size=None, first=None, change=None,
          links=None):
    """change: {(kind, index): (type, flags)}, links: array index -> next offset."""
    change, links = change or {}, links or {}
    h = case["header"]
    offsets, size = place(case)
    data = bytearray(size)
    n = h["numbers"]
    if first is None:
        first = offsets["array", 0] if case["arrays"] else 0
    struct.pack_into(
        "<8sIIB7s16s16s16s16s15Q", data, 0, signature, h["compatible"],
        h["incompatible"], h["state"], h["reserved"], *h["ids"],
        h["size"] if header_size is None else header_size, *n[:10],
        first, h["head"], h["tail"], h["monotonic"])
    for (kind, i), offset in offsets.items():
        if kind == "data":
            d = case["data"][i]
            body = struct.pack("<6Q", *d["values"]) + d["data"]
            object_type, flags = 1, d["flags"]
        elif kind == "entry":
            e = case["entries"][i]
            body = struct.pack("<QQQ16sQ", e["sequence"], e["real"], e["monotonic"],
                               e["boot"], e["xor"])
            for number, value in e["items"]:
                body += struct.pack(
                    "<QQ", offsets["data", number % len(case["data"])], value)
            object_type, flags = 3, 0
        else:
            following = links.get(i, offsets.get(("array", i + 1), 0))
            body = struct.pack("<Q", following)
            for number in array_entries(case, i):
                body += struct.pack(
                    "<Q", 0 if number is None else offsets["entry", number])
            object_type, flags = 6, 0
        object_type, flags = change.get((kind, i), (object_type, flags))
        body = struct.pack("<BB6sQ", object_type, flags, b"\1\2\3\4\5\6",
                           16 + len(body)) + body
        data[offset:offset + len(body)] = body
    return bytes(data), offsets


FLAGS = {0: "0x00", 1: "0x01 (OBJECT_COMPRESSED_XZ)", 2: "0x02 (OBJECT_COMPRESSED_LZ4)"}
TYPES = {1: "1 (OBJECT_DATA)", 3: "3 (OBJECT_ENTRY)", 6: "6 (OBJECT_ENTRY_ARRAY)"}


def expected_pairs(case, offsets):
    h = case["header"]
    n = h["numbers"]
    x = dt.hex8
    pairs = [
        ("Signature", "LPKSHHRH"), ("Compatible flags", x(h["compatible"])),
        ("Incompatible flags", x(h["incompatible"])), ("State", dt.hex2(h["state"])),
        ("Header size", h["size"]), ("Arena size", n[0]),
        ("Data hash table offset", x(n[1])), ("Data hash table size", n[2]),
        ("Field hash table offset", x(n[3])), ("Field hash table size", n[4]),
        ("Tail object offset", x(n[5])), ("Number of objects", n[6]),
        ("Number of entry objects", n[7]), ("Tail entry sequence number", x(n[8])),
        ("Head entry sequence number", x(n[9])),
        ("Entry array offset", x(offsets["array", 0] if case["arrays"] else 0)),
        ("Head entry real time", dt.posix_us(h["head"])),
        ("Tail entry real time", dt.posix_us(h["tail"])),
        ("Tail entry monotonic", x(h["monotonic"]))]

    def object_header(kind, flags, size):
        pairs.extend([("Object type", TYPES[kind]), ("Object flags", FLAGS[flags]),
                      ("Data size", size)])

    order = []
    for i in range(len(case["arrays"])):
        numbers = array_entries(case, i)
        object_header(6, 0, 24 + 8 * len(numbers))
        pairs.append(("Next entry array offset", x(offsets.get(("array", i + 1), 0))))
        for index, number in enumerate(numbers):
            value = 0 if number is None else offsets["entry", number]
            pairs.append((f"    Entry object offset: {index}", x(value)))
            if number is not None:
                order.append(number)
    for number in order:
        e = case["entries"][number]
        object_header(3, 0, 64 + 16 * len(e["items"]))
        pairs.extend([
            ("Sequence number", e["sequence"]), ("Real time", dt.posix_us(e["real"])),
            ("Monotonic", x(e["monotonic"])), ("XOR hash", x(e["xor"]))])
        for index, (item, value) in enumerate(e["items"]):
            pairs.extend([
                (f"    Entry item: {index} object offset",
                 x(offsets["data", item % len(case["data"])])),
                (f"    Entry item: {index} hash", x(value))])
        for item, _ in e["items"]:
            d = case["data"][item % len(case["data"])]
            object_header(1, d["flags"], 64 + len(d["data"]))
            v = d["values"]
            pairs.extend([
                ("Hash", x(v[0])), ("Next hash offset", x(v[1])),
                ("Next field offset", x(v[2])), ("Entry offset", x(v[3])),
                ("Entry array offset", x(v[4])), ("Number of entries", v[5])])
    return pairs, order


def check_journal(case, ctx):
    data, offsets = build(case)
    path = ctx.write(data, "system.journal")
    pairs, order = expected_pairs(case, offsets)
    ctx.note(len(order) > 1 or len(case["arrays"]) > 1, data,
             (case["arrays"], len(case["entries"])),
             labels=["empty" if not case["arrays"] else "entries"])
    _, text = dt.read_file(systemd.SystemdJournalFile, path)
    dt.pairs_equal(text, pairs)
    dumps = dt.dumps(text)
    boots = [case["header"]["ids"][2]] + [case["entries"][n]["boot"] for n in order]
    sequences_equal([d for k, d in dumps if k == "Boot identifier"], boots,
                    "boot identifiers")
    for label, index in (("File identifier", 0), ("Machine identifier", 1),
                         ("Sequence number identifier", 3)):
        sequences_equal([d for k, d in dumps if k == label],
                        [case["header"]["ids"][index]], label)
    # The complete data objects, in reading order.
    expected = []
    for number in order:
        for item, _ in case["entries"][number]["items"]:
            i = item % len(case["data"])
            start = offsets["data", i]
            expected.append(data[start:start + 64 + len(case["data"][i]["data"])])
    sequences_equal([d for k, d in dumps if k == "Data object data"], expected,
                    "data objects")
    dt.read_file(systemd.SystemdJournalFile, path, debug=False)
    dt.files_unchanged(path, data)


def check_rejected(value, ctx):
    case, kind, number = value
    case = dict(case)
    case["entries"] = case["entries"] or [dict(
        sequence=1, real=2, monotonic=3, boot=bytes(16), xor=4, items=[(0, 0)])]
    if not any(x is not None for a in case["arrays"] for x in a):
        case["arrays"] = case["arrays"] + [[0]]
    used = [x for i in range(len(case["arrays"])) for x in array_entries(case, i)
            if x is not None]
    options = {}
    if kind == "signature":
        options["signature"] = bytes(
            b ^ (1 << (number % 8)) if i == number % 8 else b
            for i, b in enumerate(b"LPKSHHRH"))
    elif kind == "header size":
        options["header_size"] = dt.wrong(
            case.get("header_size", 208), 64, number,
            [0, 207, 209, 216, 232, 256, 272, 1 << 32])
    elif kind in ("type", "flags"):
        which = number % 3
        if which == 0:
            key, good = ("array", number // 3 % len(case["arrays"])), (6, 0)
        elif which == 1:
            key, good = ("entry", used[number // 3 % len(used)]), (3, 0)
        else:
            entry = case["entries"][used[number // 3 % len(used)]]
            item = entry["items"][number // 5 % len(entry["items"])][0]
            key, good = ("data", item % len(case["data"])), (1, 0)
        if kind == "type":
            wrong = [t for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255) if t != good[0]]
            options["change"] = {key: (wrong[number // 7 % len(wrong)], 0)}
        else:
            wrong = [3, 4, 5, 8, 128, 255] if which == 2 else [1, 2, 3, 128]
            options["change"] = {key: (good[0], wrong[number // 7 % len(wrong)])}
    elif kind == "cycle":
        offsets, _ = place(case)
        last = len(case["arrays"]) - 1
        options["links"] = {last: offsets["array", number % len(case["arrays"])]}
    elif kind == "outside":
        options["first"] = [1 << 20, (1 << 63) + 8, (1 << 64) - 8][number % 3]
    data, _ = build(case, **options)
    if kind == "truncated":
        data = data[:number % 208]
    path = ctx.write(data, "reject.journal")
    ctx.note(True, data, (kind, number), labels=[kind])
    dt.rejected(systemd.SystemdJournalFile, path, f"{kind} {number}")


GENERATORS = {"systemd": JOURNAL.map(lambda c: build(c)[0])}
SUBTESTS = [
    SubTest("journal", JOURNAL, check_journal, 500, 20000),
    SubTest("rejects", st.tuples(JOURNAL, st.sampled_from(
        ["signature", "header size", "type", "flags", "cycle", "outside", "truncated"]),
        st.integers(0, 10000)), check_rejected, 300, 8000),
]
