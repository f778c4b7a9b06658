"""P14: Safari binary cookies files."""

import datetime
import struct

import dt
from dt import hex8
from vf import SubTest, equal, require, st

from dtformats import safari_cookies

PROPERTY = "P14"
TITLE = "Safari cookies: every cookie of every page is reported as stored"
STATEMENT = (
    "For every well-formed Safari binary cookies file, reading it in debug mode "
    "reports the pages in order and, per page, every record of the offsets array in "
    "order, with its size, flags, URL, name, path, value, and expiration and creation "
    "time. An absent string (offset 0) is reported as empty, an empty page or file is "
    "read without error, and a file without the cookies signature is rejected as a "
    "parse error.")
QUANTIFIER = (
    "every number of pages and records, order of the records and of the strings in a "
    "record, string length, flags and time")
WHY = (
    "The tests read a single file with fixed pages; string offsets are relative to "
    "records that are relative to pages, which one layout cannot separate.")
FILES = ["dtformats/safari_cookies.py", "dtformats/safari_cookies.yaml"]
MECHANISM = [
    ("page sizes", "safari_cookies.BinaryCookiesFile._ReadFileHeader"),
    ("record offsets", "safari_cookies.BinaryCookiesFile._ReadPage"),
    ("strings", "safari_cookies.BinaryCookiesFile._ReadRecord"),
]
OBSERVE = ["debug output of BinaryCookiesFile.Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two pages, one of which has at least two records"
ASSUMPTIONS = ["ASCII strings, times within the years 1 to 9999"]

KEYS = ("url", "name", "path", "value")
STRING = st.one_of(st.none(), dt.ASCII, st.sampled_from(["", "x" * 300]))
TIME = st.one_of(
    st.floats(-60000000000, 250000000000, allow_nan=False),
    st.integers(-1000000, 2000000000).map(float),
    st.sampled_from([0.0, 0.5, -0.5, 86399.999, 413971200.25]))
RECORD = st.fixed_dictionaries(dict(
    unknown1=dt.u(32), flags=dt.u(32), unknown2=dt.u(32), unknown3=dt.u(64),
    expiration=TIME, creation=TIME, order=st.permutations(KEYS),
    slack=st.integers(0, 5), url=STRING, name=STRING, path=STRING, value=STRING))
PAGE = st.fixed_dictionaries(dict(
    records=dt.many(RECORD, max_size=4), order=st.permutations(range(4)),
    slack=st.integers(0, 9), signature=dt.u(32)))
MODELS = st.fixed_dictionaries(dict(
    pages=dt.many(PAGE, max_size=4), footer=st.binary(min_size=8, max_size=8)))


def pack_record(r):
    body = bytearray()
    offsets = {key: 0 for key in KEYS}
    for key in r["order"]:
        if r[key] is not None:
            offsets[key] = 56 + len(body)
            body += r[key].encode("ascii") + b"\0"
    body += b"\xee" * r["slack"]
    size = 56 + len(body)
    header = struct.pack(
        "<8IQdd", size, r["unknown1"], r["flags"], r["unknown2"],
        *[offsets[key] for key in KEYS], r["unknown3"], r["expiration"],
        r["creation"])
    return header + bytes(body), offsets


def time_string(value):
    date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
        days=int(value) // 86400, seconds=int(value) % 86400)
    return f"{date_time!s} ({value:f})"


def build(model):
    pages, expected, dumps = [], [], []
    for page in model["pages"]:
        packed = [pack_record(r) for r in page["records"]]
        layout = [i for i in page["order"] if i < len(packed)]
        layout += range(4, len(packed))
        body = bytearray()
        base = 8 + 4 * len(packed) + 4
        offsets = [0] * len(packed)
        for index in layout:
            offsets[index] = base + len(body)
            body += packed[index][0]
        data = struct.pack("<II", page["signature"], len(packed))
        data += b"".join(struct.pack("<I", o) for o in offsets)
        data += b"\0" * 4 + bytes(body) + b"\0" * page["slack"]
        pages.append(data)

        expected += [("Signature", hex8(page["signature"])),
                     ("Number of records", len(packed))]
        expected += [(f"Record: {i:d} offset", o) for i, o in enumerate(offsets)]
        for r, (blob, string_offsets) in zip(page["records"], packed):
            dumps.append(blob)
            expected += [
                ("Size", len(blob)), ("Unknown1", hex8(r["unknown1"])),
                ("Flags", hex8(r["flags"])), ("Unknown2", hex8(r["unknown2"])),
                ("URL offset", string_offsets["url"]),
                ("Name offset", string_offsets["name"]),
                ("Path offset", string_offsets["path"]),
                ("Value offset", string_offsets["value"]),
                ("Unknown3", hex8(r["unknown3"])),
                ("Expiration time", time_string(r["expiration"])),
                ("Creation time", time_string(r["creation"])),
                ("URL", r["url"] or ""), ("Name", r["name"] or ""),
                ("Path", r["path"] or ""), ("Value", r["value"] or "")]

    data = b"cook" + struct.pack(">I", len(pages))
    data += b"".join(struct.pack(">I", len(page)) for page in pages)
    data += b"".join(pages) + model["footer"]
    header = [("Signature", "b'cook'"), ("Number of pages", len(pages))]
    header += [(f"Page: {i:d} size", len(page)) for i, page in enumerate(pages)]
    return data, header + expected, dumps


def check(model, ctx):
    data, expected, dumps = build(model)
    path = ctx.write(data)
    ctx.note(
        len(model["pages"]) > 1 and any(len(p["records"]) > 1 for p in model["pages"]),
        data, [[r["url"] for r in p["records"]] for p in model["pages"]],
        labels=["no pages"] if not model["pages"] else [])
    _, text = dt.read_file(safari_cookies.BinaryCookiesFile, path)
    dt.pairs_equal(text, expected, labels=[
        "Record: 0 offset", "Page: 0 size", "URL", "Name", "Path", "Value", "Size"])
    actual = [d for name, d in dt.dumps(text) if name == "Record data"]
    equal(actual, dumps, "record data")
    dt.files_unchanged(path, data)


def check_rejected(case, ctx):
    model, kind, number = case
    data, _, _ = build(model)
    if kind == "signature":
        data = bytearray(data)
        data[number % 4] ^= 1 + number % 255
        data = bytes(data)
    else:
        # Cut in the header, the pages or the footer.
        data = data[:number % len(data)]
        require(len(data) >= 0, "size")
    path = ctx.write(data)
    ctx.note(bool(model["pages"]), data, (kind, number), labels=[kind])
    dt.rejected(safari_cookies.BinaryCookiesFile, path, f"{kind} {number:d}")


SUBTESTS = [
    SubTest("roundtrip", MODELS, check, quick=600, thorough=30000),
    SubTest("rejects", st.tuples(
        MODELS, st.sampled_from(["signature", "truncated"]), st.integers(0, 5000)),
        check_rejected, quick=300, thorough=6000),
]
