"""P12: GZIP files."""

import struct
import zlib

import dt
from vf import SubTest, st

from dtformats import gzipfile

PROPERTY = "P12"
TITLE = "GZIP files: every member is reported with its own header and footer"
STATEMENT = (
    "For every valid gzip file of one or more members, with any combination of extra "
    "field, file name, comment and header checksum, any content including none and "
    "any compression level, reading it in debug mode reports exactly the members in "
    "order, each with the stored header values, original filename, comment, checksum "
    "and uncompressed size. A member with another signature or compression method, a "
    "truncated member or corrupt compressed data is rejected as a parse error.")
QUANTIFIER = (
    "every number of members, combination of header flags, content size (empty to "
    "megabytes) and kind (compressible or not), and position of the damage")
WHY = (
    "The tests read one file of one member with one flag combination; where a member "
    "ends depends on its compressed data.")
FILES = ["dtformats/gzipfile.py", "dtformats/gzipfile.yaml",
         "dtformats/gzipfile.debug.yaml"]
MECHANISM = [
    ("member loop", "gzipfile.GZipFile.ReadFileObject"),
    ("optional header fields", "gzipfile.GZipFile._ReadMemberHeader"),
    ("end of compressed data", "gzipfile.GZipFile._ReadMemberCompressedData"),
]
OBSERVE = ["debug output of GZipFile.Open", "ParseError"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "at least two members, or a member without content, with optional fields"
ASSUMPTIONS = ["zlib of the Python standard library produces valid streams"]

LATIN = st.text(
    alphabet=[chr(c) for c in range(0x20, 0x7F)] + [chr(c) for c in range(0xA1, 0x100)],
    max_size=20)
CONTENT = st.one_of(
    st.just(b""), st.binary(max_size=60),
    st.tuples(st.integers(0, 255), st.integers(1, 70000)).map(
        lambda t: bytes([t[0]]) * t[1]),
    st.tuples(st.integers(1, 999), st.integers(1, 40000)).map(
        lambda t: bytes((i * i * t[0] >> 3) & 0xFF for i in range(t[1]))))
MEMBER = st.fixed_dictionaries(dict(
    content=CONTENT, level=st.integers(0, 9), strategy=st.sampled_from([0, 2, 3, 4]),
    text=st.booleans(), hcrc=st.booleans(),
    extra=st.one_of(st.none(), st.binary(max_size=20), st.just(b"x" * 65535)),
    name=st.one_of(st.none(), LATIN), comment=st.one_of(st.none(), LATIN),
    time=dt.s(32), xfl=dt.u(8), os=dt.u(8)))
MODELS = dt.many(MEMBER, min_size=1, max_size=4)


def pack(m):
    flags = (1 if m["text"] else 0) | (2 if m["hcrc"] else 0)
    flags |= 4 if m["extra"] is not None else 0
    flags |= 8 if m["name"] is not None else 0
    flags |= 16 if m["comment"] is not None else 0
    header = struct.pack(
        "<2sBBiBB", b"\x1f\x8b", 8, flags, m["time"], m["xfl"], m["os"])
    if m["extra"] is not None:
        header += struct.pack("<H", len(m["extra"])) + m["extra"]
    if m["name"] is not None:
        header += m["name"].encode("latin1") + b"\0"
    if m["comment"] is not None:
        header += m["comment"].encode("latin1") + b"\0"
    if m["hcrc"]:
        header += struct.pack("<H", zlib.crc32(header) & 0xFFFF)
    compressor = zlib.compressobj(m["level"], zlib.DEFLATED, -15, 8, m["strategy"])
    body = compressor.compress(m["content"]) + compressor.flush()
    crc = zlib.crc32(m["content"])
    footer = struct.pack("<II", crc, len(m["content"]))
    pairs = [
        ("Signature", "0x8b1f"), ("Compression method", 8), ("Flags", dt.hex2(flags)),
        ("Modification time", dt.posix(m["time"])), ("Operating system", m["os"]),
        ("Compression flags", dt.hex2(m["xfl"]))]
    if m["name"] is not None:
        pairs.append(("Original filename", m["name"]))
    if m["comment"] is not None:
        pairs.append(("Comment", m["comment"]))
    pairs += [("Checksum", dt.hex8(crc)), ("Uncompressed data size", len(m["content"]))]
    return header, body, footer, pairs


def nontrivial(model):
    return (len(model) > 1 or not model[0]["content"]) and any(
        m["name"] is not None or m["extra"] is not None for m in model)


def check(model, ctx):
    packed = [pack(m) for m in model]
    data = b"".join(h + b + f for h, b, f, _ in packed)
    path = ctx.write(data)
    ctx.note(
        nontrivial(model), data, [(m["name"], len(m["content"])) for m in model],
        labels=[f"{len(model):d} members"] + (
            ["empty member"] if any(not m["content"] for m in model) else []))
    _, text = dt.read_file(gzipfile.GZipFile, path)
    dt.pairs_equal(
        text, [pair for part in packed for pair in part[3]],
        labels=["Original filename", "Comment"])
    dt.files_unchanged(path, data)


def check_rejected(case, ctx):
    model, kind, index, number = case
    packed = [list(pack(m)) for m in model]
    part = packed[index % len(packed)]
    if kind == "signature":
        header = bytearray(part[0])
        header[number % 2] ^= 1 + number % 255
        part[0] = bytes(header)
    elif kind == "method":
        header = bytearray(part[0])
        header[2] ^= 1 + number % 255
        part[0] = bytes(header)
    elif kind == "data":
        # Reserved deflate block type: invalid wherever it occurs first.
        part[1] = b"\x07" + part[1][1:]
    data = b"".join(h + b + f for h, b, f, _ in packed)
    if kind == "truncated":
        last = sum(len(part) for part in packed[-1][:3])
        data = data[:len(data) - 1 - number % (last - 1)]
    path = ctx.write(data)
    ctx.note(len(model) > 1, data, (kind, index, number), labels=[kind])
    dt.rejected(gzipfile.GZipFile, path, f"{kind} {index:d} {number:d}")


SUBTESTS = [
    SubTest("roundtrip", MODELS, check, quick=600, thorough=20000),
    SubTest("rejects", st.tuples(
        MODELS, st.sampled_from(["signature", "method", "data", "truncated"]),
        st.integers(0, 3), st.integers(0, 5000)), check_rejected,
        quick=400, thorough=6000),
]
