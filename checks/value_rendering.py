"""P01: rendering of values in the debug output."""

import io
import struct
import types

import dt
from vf import SubTest, Violation, equal, require, st

from dtformats import data_format

PROPERTY = "P01"
TITLE = "Debug output renders every value so that it can be read back exactly"
STATEMENT = (
    "For every byte string, the hexadecimal dump in the debug output has offsets, hexadecimal "
    "and printable columns from which the data can be restored: 16 bytes per line, "
    "a repeated line replaced by a single '...' but never the last line. For every "
    "integer, floating-point, string, stream, array, IPv4 and IPv6 address, UUID, "
    "FILETIME, HFS and POSIX time value the rendered text is the value: times are "
    "those of the proleptic Gregorian calendar in UTC with all digits of the fraction, 0 "
    "is shown as not set, and values outside what can be represented are shown in "
    "hexadecimal instead of raising or taking forever. A structure is rendered as one line per "
    "attribute in the order of the debug definition, without attributes that have no "
    "value, a description followed by tabs up to the value column.")
QUANTIFIER = "every byte string, integer, time value, string and structure"
WHY = "The tests render a few byte strings and one value of a few other kinds."
FILES = ["dtformats/data_format.py"]
MECHANISM = [
    ("hexadecimal dump", "data_format.BinaryDataFormat._FormatDataInHexadecimal"),
    ("structure rendering", "data_format.BinaryDataFormat._FormatStructureObject"),
    ("times", "data_format.BinaryDataFormat._FormatIntegerAsPosixTime, "
              "_FormatIntegerAsFiletime, _FormatIntegerAsHFSTime"),
]
OBSERVE = ["text passed to the output writer"]
TECHNIQUE = (
    "property-based testing against a reference renderer and an independent calendar")
RULE = "data of more than 16 bytes, or a value that is not 0 or empty"
ASSUMPTIONS = ["printable bytes are 0x20 up to and including 0x7e"]

FORMAT = data_format.BinaryDataFormat


def make(**kwargs):
    recorder = dt.Recorder()
    return FORMAT(output_writer=recorder, **kwargs), recorder


def reference_dump(data):
    lines = []
    previous = None
    skipping = False
    for offset in range(0, len(data), 16):
        block = data[offset:offset + 16]
        if (previous == block and offset + 16 < len(data)):
            if not skipping:
                lines.append("...")
            skipping = True
            continue
        skipping = False
        previous = block
        text = ""
        for index in range(16):
            if index == 8:
                text += " "
            text += f"{block[index]:02x} " if index < len(block) else "   "
        characters = "".join(chr(b) if 0x20 <= b < 0x7f else "." for b in block)
        lines.append((offset, text.rstrip(), characters))
    return lines


BLOCK = st.binary(min_size=16, max_size=16)
DATA = st.one_of(
    st.binary(max_size=70),
    st.lists(
        st.tuples(st.one_of(BLOCK, st.sampled_from([b"\0" * 16, b"\xff" * 16])),
                  st.integers(1, 4)), max_size=5).flatmap(
        lambda runs: st.binary(max_size=17).map(
            lambda tail: b"".join(b * n for b, n in runs) + tail)))


def check_dump(data, ctx):
    ctx.note(len(data) > 16, data, data,
             labels=["repeated"] if "..." in reference_dump(data) else [])
    formatter, recorder = make()
    formatter._DebugPrintData("Some data", data)
    text = recorder.text
    require(text.startswith("Some data:\n"), "missing description")
    lines = text[len("Some data:\n"):].split("\n")
    equal(lines[-2:], ["", ""], "end of the dump")
    lines = lines[:-2]
    expected = reference_dump(data)
    equal(len(lines), len(expected), "number of lines")
    column = None
    for line, reference in zip(lines, expected):
        if reference == "...":
            equal(line, "...", "repeated line")
            continue
        offset, hexadecimal, characters = reference
        require(line.startswith(f"0x{offset:08x}  {hexadecimal:s}"),
                lambda: f"line {line!r} does not start with offset {offset:d} and "
                        f"{hexadecimal!r}")
        require(line.endswith("  " + characters),
                lambda: f"line {line!r} does not end with {characters!r}")
        start = len(line) - len(characters)
        require(not line[len(f"0x{offset:08x}  {hexadecimal:s}"):start].strip(),
                lambda: f"surplus text in {line!r}")
        if column is None or len(characters) == 16:
            column = start if len(characters) == 16 else None
        elif column is not None:
            equal(start, column, "column of the printable characters")
    equal(dt.hexdump_data(lines), data, "data restored from the dump")


TIMES = st.one_of(
    st.tuples(st.just("PosixTime"), st.one_of(
        st.integers(-62135596800, 253402300799), dt.POSIX_SECONDS, dt.s(64), dt.u(64))),
    st.tuples(st.just("PosixTimeInMicroseconds"), st.one_of(
        st.integers(-62135596800 * 10**6, 253402300799 * 10**6 + 999999), dt.s(64),
        dt.u(64))),
    st.tuples(st.just("PosixTimeInNanoseconds"), st.one_of(dt.u(64), dt.s(64))),
    st.tuples(st.just("HFSTime"), dt.POSIX32),
    st.tuples(st.just("Filetime"), st.one_of(dt.FILETIME, dt.u(64))))


def reference_time(kind, value):
    if value == 0:
        return "Not set (0)"
    if kind == "Filetime" and value == 0x7fffffffffffffff:
        return "Never (0x7fffffffffffffff)"
    divisor, digits, epoch = {
        "PosixTime": (1, 0, 0), "PosixTimeInMicroseconds": (10**6, 6, 0),
        "PosixTimeInNanoseconds": (10**9, 9, 0), "HFSTime": (1, 0, -2082844800),
        "Filetime": (10**7, 7, -11644473600)}[kind]
    seconds, fraction = divmod(value, divisor)
    seconds += epoch
    if kind.startswith("PosixTime") and not (
            -62135596800 <= seconds <= 253402300799):
        return None
    return dt.date_time_string(seconds, fraction, digits) + " UTC"


def unwrap(value):
    if isinstance(value, tuple):
        equal(len(value), 2, "rendered value")
        value = value[0]
    return value


def check_times(case, ctx):
    kind, value = case
    function = getattr(make()[0], f"_FormatIntegerAs{kind:s}", None)
    if function is None:
        return
    ctx.note(value != 0, repr(case), case, labels=[kind])
    expected = reference_time(kind, value)
    actual = unwrap(function(value))
    if expected is None:
        equal(actual, f"0x{value:08x}", f"{kind:s} {value:d} out of range")
    else:
        equal(actual, expected, f"{kind:s} {value:d}")
    if kind in ("PosixTime", "Filetime"):
        formatter, recorder = make()
        function = getattr(formatter, f"_DebugPrint{kind:s}Value", None)
        if function:
            function("Time", value)
            equal(dt.values(recorder.text), [("Time", expected or f"0x{value:08x}")],
                  f"printed {kind:s} {value:d}")


VALUES = st.one_of(
    st.tuples(st.just("_FormatIntegerAsDecimal"), dt.s(64)),
    st.tuples(st.just("_FormatIntegerAsHexadecimal2"), dt.u(8)),
    st.tuples(st.just("_FormatIntegerAsHexadecimal4"), dt.u(16)),
    st.tuples(st.just("_FormatIntegerAsHexadecimal8"), dt.u(64)),
    st.tuples(st.just("_FormatIntegerAsOffset"), dt.u(64)),
    st.tuples(st.just("_FormatArrayOfIntegersAsDecimals"),
              st.lists(dt.s(32), max_size=6)),
    st.tuples(st.just("_FormatArrayOfIntegersAsOffsets"),
              st.lists(dt.u(32), max_size=6)),
    st.tuples(st.just("_FormatArrayOfIntegersAsIPv4Address"),
              st.binary(max_size=6)),
    st.tuples(st.just("_FormatArrayOfIntegersAsIPv6Address"),
              st.one_of(st.binary(min_size=16, max_size=16), st.binary(max_size=20))),
    st.tuples(st.just("_FormatFloatingPoint"),
              st.floats(allow_nan=False, allow_infinity=False, width=32)),
    st.tuples(st.just("_FormatStreamAsString"), st.binary(max_size=40)),
    st.tuples(st.just("_FormatString"), dt.UNICODE.flatmap(
        lambda t: st.integers(0, 3).map(lambda n: t + "\0" * n))),
    st.tuples(st.just("_FormatUUIDAsString"), st.uuids()))


def reference_value(kind, value):
    if kind == "_FormatIntegerAsDecimal":
        return str(value)
    if kind.startswith("_FormatIntegerAsHexadecimal"):
        return "0x" + hex(value)[2:].rjust(int(kind[-1]), "0")
    if kind == "_FormatIntegerAsOffset":
        return f"{value:d} (0x{value:08x})"
    if kind == "_FormatArrayOfIntegersAsDecimals":
        return ", ".join(str(v) for v in value)
    if kind == "_FormatArrayOfIntegersAsOffsets":
        return ", ".join(f"{v:d} (0x{v:08x})" for v in value)
    if kind == "_FormatArrayOfIntegersAsIPv4Address":
        return ".".join(str(v) for v in value) if len(value) == 4 else None
    if kind == "_FormatArrayOfIntegersAsIPv6Address":
        if len(value) != 16:
            return None
        return ":".join(value[i:i + 2].hex() for i in range(0, 16, 2))
    if kind == "_FormatFloatingPoint":
        return "%f" % value
    if kind == "_FormatStreamAsString":
        return "".join(
            chr(b) if 0x20 <= b < 0x7f else f"\\x{b:02x}" for b in value)
    if kind == "_FormatString":
        return value.rstrip("\0")
    h = value.hex
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def check_values(case, ctx):
    kind, value = case
    function = getattr(make()[0], kind, None)
    if function is None:
        return
    ctx.note(bool(value), repr(case), case, labels=[kind])
    equal(unwrap(function(value)), reference_value(kind, value), kind)


# Structures, by way of a definition and a debug definition that are generated.

DEFINITION = """\
name: test
type: format
---
name: byte
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: char
type: integer
attributes:
  format: signed
  size: 1
  units: bytes
---
name: uint8
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: uint16
type: integer
attributes:
  format: unsigned
  size: 2
  units: bytes
---
name: uint32
type: integer
attributes:
  format: unsigned
  size: 4
  units: bytes
---
name: int64
type: integer
attributes:
  format: signed
  size: 8
  units: bytes
---
name: float64
type: floating-point
attributes:
  size: 8
  units: bytes
---
name: uuid
type: uuid
attributes:
  byte_order: little-endian
---
name: structure
type: structure
attributes:
  byte_order: little-endian
members:
"""

FIELDS = {
    "decimal": ("int64", dt.s(64), "<q", str),
    "hexadecimal_2digits": ("uint8", dt.u(8), "<B", dt.hex2),
    "hexadecimal_4digits": ("uint16", dt.u(16), "<H", dt.hex4),
    "hexadecimal_8digits": ("uint32", dt.u(32), "<I", dt.hex8),
    "floating_point": (
        "float64", st.floats(-1e15, 1e15, allow_nan=False), "<d", lambda v: "%f" % v),
}
FIELD = st.one_of(
    *[st.tuples(st.just(name), entry[1]) for name, entry in sorted(FIELDS.items())],
    st.tuples(st.just("string"), dt.ASCII1),
    st.tuples(st.just("binary_data"), st.binary(min_size=1, max_size=50)),
    st.tuples(st.just("uuid"), st.uuids()))
DESCRIPTION = st.text(
    alphabet="abcdefghijklmnopqrstuvwxyz ABC012", min_size=1, max_size=60).map(
    lambda t: "D" + t.strip())
STRUCTURE = st.tuples(
    st.lists(st.tuples(FIELD, DESCRIPTION, st.booleans()), min_size=1, max_size=7),
    st.binary(max_size=20), st.integers(0, 9), st.permutations(range(7)))


def yaml_of(fields, order):
    definition = DEFINITION
    debug = "---\ndata_type_map: structure\nattributes:\n"
    data = b""
    shown = []
    for index, ((kind, value), description, visible) in enumerate(fields):
        name = f"field{index:d}"
        if kind in FIELDS:
            data_type, _, fmt, render = FIELDS[kind]
            definition += f"- name: {name:s}\n  data_type: {data_type:s}\n"
            data += struct.pack(fmt, value)
            text = render(value)
        elif kind == "string":
            definition += (
                f"- name: {name:s}\n  type: string\n  encoding: ascii\n"
                f"  element_data_type: char\n  elements_data_size: {len(value):d}\n")
            data += value.encode()
            text = value
        elif kind == "binary_data":
            definition += (
                f"- name: {name:s}\n  type: stream\n  element_data_type: byte\n"
                f"  elements_data_size: {len(value):d}\n")
            data += value
            text = value
        else:
            definition += f"- name: {name:s}\n  data_type: uuid\n"
            data += value.bytes_le
            text = str(value)
        if visible:
            shown.append((index, name, description, kind, text))
    shown.sort(key=lambda e: order[e[0] % len(order)])
    for _, name, description, kind, _ in shown:
        debug += (f"- name: {name:s}\n  description: \"{description:s}\"\n"
                  f"  format: {kind:s}\n")
    # An attribute that the structure does not have.
    debug += "- name: missing\n  description: \"Missing\"\n  format: decimal\n"
    return definition, debug, data, shown


def check_structure(case, ctx):
    fields, tail, start, order = case
    definition, debug, data, shown = yaml_of(fields, order)
    ctx.note(len(shown) > 1, repr(case), [f[0] for f in fields],
             labels=[kind for _, _, _, kind, _ in shown])
    ctx.write(definition.encode(), "t.yaml")
    ctx.write(debug.encode(), "t.debug.yaml")
    base = type("Base", (data_format.BinaryDataFormat,), {
        "_DEFINITION_FILES_PATH": ctx.scratch})
    cls = type("Test", (base,), {
        "_FABRIC": base.ReadDefinitionFile("t.yaml"),
        "_DEBUG_INFORMATION": base.ReadDebugInformationFile("t.debug.yaml")})
    recorder = dt.Recorder()
    reader = cls(debug=True, output_writer=recorder)
    structure, size = reader._ReadStructureFromFileObject(
        io.BytesIO(b"\xee" * start + data + tail), start,
        reader._GetDataTypeMap("structure"), "some structure")
    equal(size, len(data), "size of the structure")
    equal(recorder.text[:recorder.text.index("\n")],
          f"Reading some structure at offset: {start:d} (0x{start:08x})",
          "announcement")
    equal(dt.dumps(recorder.text), [("Some structure data", data)], "structure data")
    recorder.parts.clear()
    reader._DebugPrintStructureObject(structure, cls._DEBUG_INFORMATION["structure"])
    text = recorder.text
    position = 0
    for _, _, description, kind, value in shown:
        if kind == "binary_data":
            expected = f"{description:s}:\n"
            require(text.startswith(expected, position),
                    lambda: f"expected {expected!r} at {text[position:position + 80]!r}")
            position += len(expected)
            end = text.index("\n\n", position)
            equal(dt.hexdump_data(text[position:end].split("\n")), value,
                  "binary data of the structure")
            position = end + 2
            continue
        tabs = "\t" * (8 - len(description) // 8 + 1)
        expected = f"{description:s}{tabs:s}: {value:s}\n"
        if not text.startswith(expected, position):
            raise Violation(
                f"structure: expected {expected!r} but got "
                f"{text[position:position + 120]!r}")
        position += len(expected)
    require(text[position:] in ("\n", ""), f"end of structure: {text[position:]!r}")
    require(text.endswith("\n\n") or not shown and text == "\n",
            "structure is not followed by an empty line")
    if tail or start:
        # Data that ends within the structure.
        for cut in {0, len(data) - 1, len(data) // 2}:
            try:
                reader._ReadStructureFromFileObject(
                    io.BytesIO(b"\xee" * start + data[:cut]), start,
                    reader._GetDataTypeMap("structure"), "some structure")
            except dt.errors.ParseError:
                continue
            raise Violation(f"{cut:d} of {len(data):d} bytes were accepted")


types  # noqa: B018

SUBTESTS = [
    SubTest("dump", DATA, check_dump, 1500, 30000),
    SubTest("times", TIMES, check_times, 2500, 60000),
    SubTest("values", VALUES, check_values, 2000, 40000),
    SubTest("structure", STRUCTURE, check_structure, 400, 6000),
]
