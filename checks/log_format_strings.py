"""P35: Apple Unified Logging format strings and value decoders."""

import base64
import ipaddress
import json
import math
import os
import stat
import struct
import uuid

import aul_tables
import dt
import tracev3
from vf import SubTest, Violation, equal, require, st

from dtformats import unified_logging

PROPERTY = "P35"
TITLE = "Unified logging: format strings and value decoders format as documented"
STATEMENT = (
    "A StringFormatter splits every unified logging format string in its literal text and "
    "its operators (%[decoder][flags][width][.precision][length]specifier, with %% a literal "
    "%): it reports the decoder names (without private, public, sensitive, name=, "
    "bluetooth:OI_STATUS and xcode:size-in-bytes, and the internal decoder of the specifier "
    "when no other remains) and the operator of every value, and FormatString returns "
    "the text with the values in place, and <decode: missing data> for a missing value. The "
    "integer, floating-point and string decoders format a value with the flags, width "
    "and precision as C printf does (integer precision other than "
    "in %d, and * are not applied). The other decoders "
    "format a value as documented (booleans, error codes, file modes, IPv4, IPv6 and socket "
    "addresses, UUID and security identifiers, date and time, mask hashes, Core Location, "
    "mDNS and Open Directory values, signposts); value data of a size that is not supported "
    "is formatted as <decode: unsupported value> and value data that cannot be read is "
    "a ParseError, never another error.")
QUANTIFIER = ("every format string, combination of flags, width, precision, length and "
              "specifier, value and value data")
WHY = ("The tests format one or two values per decoder and 18 operators; the "
       "combinations of flags, width, precision and value are unbounded.")
FILES = ["dtformats/unified_logging.py", "dtformats/darwin.py",
         "dtformats/macos_core_location.yaml", "dtformats/macos_mdns.yaml",
         "dtformats/macos_open_directory.yaml", "dtformats/windows_nt.yaml"]
MECHANISM = [
    ("format strings", "StringFormatter.ParseFormatString, FormatString"),
    ("operators", "FormatStringOperator.GetPythonFormatString"),
    ("decoders", "classes derived from BaseFormatStringDecoder, FormatValue"),
]
OBSERVE = ["GetDecoderNamesByIndex, GetFormatStringOperator", "FormatString, FormatValue",
           "errors raised"]
TECHNIQUE = ("property-based testing against a reference model (the Python % operator, "
             "ipaddress, stat.filemode, the documented tables and structures)")
RULE = ("format strings: two or more operators and literal text; operators: a flag, "
        "width or precision; decoders: a value that is neither empty nor all zero")
ASSUMPTIONS = [
    "the + and space flags are only used with signed integers and floating-point "
    "values, the # flag not with octal and pointer values, and the 0 flag not with strings, "
    "pointers or floating-point values that are not finite (undefined in C, or special)",
    "the a and A specifiers are formatted as f (as the tests require)",
]

MISSING = "<decode: missing data>"
UNSUPPORTED = "<decode: unsupported value>"
IGNORED = ["private", "public", "sensitive", "bluetooth:OI_STATUS", "xcode:size-in-bytes"]
INTERNAL = {**dict.fromkeys("@Ps", "internal:s"), **dict.fromkeys("aAeEfFgG", "internal:f"),
            **dict.fromkeys("dDi", "internal:i"), "m": "internal:m",
            **dict.fromkeys("coOpuUxX", "internal:u")}
SPECIFIERS = "@aAcCdDeEfFgGimoOpPsSuUxX"
LENGTHS = ["", "h", "hh", "j", "l", "ll", "L", "t", "q", "z"]

LITERAL = st.text(alphabet=st.one_of(
    st.sampled_from("{}:0sd %"[:-1] + "{}[]()\\\n"),
    st.characters(min_codepoint=0x20, max_codepoint=0x2FFF, exclude_characters="%",
                  exclude_categories=("Cs",))), min_size=1, max_size=8)
DECODER = st.one_of(
    st.sampled_from(IGNORED + ["name=x", "name=some name", "name="]),
    st.sampled_from(["uuid_t", "time_t", "mask.hash", "errno", "location:SqliteResult",
                     "odtypes:ODError", "Name:thing", "signpost.telemetry:number1"]),
    st.text(alphabet="abcdef:._-0123456789", min_size=1, max_size=12))
FLAGS = st.lists(st.sampled_from("-+0 #"), max_size=3, unique=True).map("".join)
WIDTH = st.one_of(st.none(), st.integers(1, 24).map(str))
PRECISION = st.one_of(st.none(), st.integers(1, 18).map(lambda value: f".{value:d}"))


@st.composite
def operator(draw):
    decoders = draw(st.one_of(
        st.none(), st.lists(DECODER, min_size=1, max_size=3),
        st.lists(st.one_of(st.sampled_from(IGNORED[:2] + ["name=x"]), DECODER), min_size=3,
                 max_size=6)))
    while decoders and len(", ".join(decoders)) > 128:
        decoders = decoders[:-1]
    separator = draw(st.sampled_from([",", ", ", " ,"]))
    flags = draw(FLAGS)
    width = draw(st.one_of(WIDTH, st.just("*")))
    if width is not None and width != "*":
        width = width.lstrip("0") or None
    precision = draw(st.one_of(PRECISION, st.sampled_from([".", ".0", ".*"])))
    length = draw(st.sampled_from(LENGTHS))
    specifier = draw(st.sampled_from(SPECIFIERS))
    text = "%"
    if decoders is not None:
        text = f"%{{{separator.join(decoders):s}}}"
    text += flags + (width or "") + (precision or "") + length + specifier
    names = [name.strip() for name in decoders or []]
    names = [name for name in names
             if name and name not in IGNORED and not name.startswith("name=")]
    if not names and specifier in INTERNAL:
        names = [INTERNAL[specifier]]
    return text, names, (flags or None, width, precision, specifier)


SEGMENT = st.one_of(
    st.tuples(st.just("literal"), LITERAL), st.just(("percent", "%%")),
    st.tuples(st.just("operator"), operator()))


@st.composite
def format_string(draw):
    segments = draw(st.lists(SEGMENT, max_size=7))
    number = sum(1 for kind, _ in segments if kind == "operator")
    values = draw(st.lists(st.text(alphabet="ab{}%0:s\u20ac", max_size=5),
                           max_size=number + 2))
    return segments, values


def check_format_string(case, ctx):
    segments, values = case
    operators = [value for kind, value in segments if kind == "operator"]
    text = "".join(value[0] if kind == "operator" else value for kind, value in segments)
    ctx.note(len(operators) >= 2 and len(operators) < len(segments),
             key=f"{text!r} {values!r}", sample=repr(text),
             labels=[f"operators:{min(len(operators), 3)}"])
    formatter = unified_logging.StringFormatter()
    formatter.ParseFormatString("%d other %s")
    formatter.ParseFormatString(text)
    for index, (_, names, arguments) in enumerate(operators):
        equal(formatter.GetDecoderNamesByIndex(index), names, f"decoder names {index} {text!r}")
        found = formatter.GetFormatStringOperator(index)
        require(found is not None, f"no operator {index} of {text!r}")
        equal((found.flags, found.width, found.precision, found.specifier), arguments,
              f"operator {index} of {text!r}")
    equal(formatter.GetDecoderNamesByIndex(len(operators)), [], "decoder names past the end")
    equal(formatter.GetFormatStringOperator(len(operators)), None, "operator past the end")
    given = list(values)
    if len(operators) < len(values):
        given = given[:len(operators)]
    remaining = list(given)
    expected = []
    for kind, value in segments:
        if kind == "literal":
            expected.append(value)
        elif kind == "percent":
            expected.append("%")
        else:
            expected.append(remaining.pop(0) if remaining else MISSING)
    equal(formatter.FormatString(list(given)), "".join(expected), f"formatted {text!r}")
    # Formatting does not depend on what was formatted before.
    equal(formatter.FormatString(list(given)), "".join(expected), f"formatted again {text!r}")
    formatter.ParseFormatString("")
    equal(formatter.FormatString([]), "", "empty format string")
    equal(formatter.GetFormatStringOperator(0), None, "operator of empty format string")


SIGNED, UNSIGNED = "dDi", "uUxXo"
OBJECTS = {
    "i": unified_logging.SignedIntegerFormatStringDecoder,
    "u": unified_logging.UnsignedIntegerFormatStringDecoder,
    "f": unified_logging.FloatingPointFormatStringDecoder,
    "s": unified_logging.StringFormatStringDecoder,
}


@st.composite
def number(draw):
    """Returns (kind, data, flags, width, precision, specifier, expected)."""
    kind = draw(st.sampled_from(["i", "u", "u", "x", "p", "f", "f", "s", "c", "a"]))
    width = draw(st.one_of(WIDTH, st.just("*")))
    w = "" if width in (None, "*") else width
    precision = None
    if kind in "iux":
        size = draw(st.sampled_from([1, 2, 4, 8]))
        signed = kind == "i"
        value = draw(dt.s(8 * size) if signed else st.one_of(st.just(0), dt.u(8 * size)))
        data = value.to_bytes(size, "little", signed=signed)
        specifier = draw(st.sampled_from({"i": "dDi", "u": "uUoO", "x": "xX"}[kind]))
        allowed = {"i": "-+0 ", "u": "-0", "x": "-0#"}[kind]
        flags = "".join(draw(st.permutations(draw(st.lists(
            st.sampled_from(allowed), max_size=3, unique=True)))))
        if specifier == "d" and w and draw(st.booleans()):
            # Documented: for a format string like "%6.6d" 0 padding is used.
            precision = f".{w:s}"
            flags = ""
        c = {"D": "d", "i": "d", "U": "d", "u": "d", "O": "o"}.get(specifier, specifier)
        effective = flags.replace("0", "") if "-" in flags else flags
        if value == 0:
            effective = effective.replace("#", "")
        if precision:
            expected = f"{value:0{w}d}"
        else:
            expected = f"%{effective}{w}{c}" % value
        decoder = "i" if signed else "u"
    elif kind == "p":
        size = draw(st.sampled_from([4, 8]))
        value = draw(dt.u(8 * size))
        data, specifier, decoder = value.to_bytes(size, "little"), "p", "u"
        flags = draw(st.sampled_from(["", "-"]))
        expected = f"%{flags}{w}s" % hex(value)
    elif kind == "c":
        size = draw(st.sampled_from([1, 4]))
        value = draw(st.integers(0x20, 0x7E))
        data, specifier, decoder = value.to_bytes(size, "little"), "c", "u"
        flags = draw(st.sampled_from(["", "-"]))
        expected = f"%{flags}{w}s" % chr(value)
    elif kind in "fa":
        size = draw(st.sampled_from([4, 8]))
        data = draw(st.one_of(
            st.binary(min_size=size, max_size=size),
            st.floats(-1e6, 1e6).map(
                lambda value: struct.pack("<f" if size == 4 else "<d", value))))
        value = struct.unpack("<f" if size == 4 else "<d", data)[0]
        specifier = draw(st.sampled_from("aA" if kind == "a" else "eEfFgG"))
        flags = "".join(draw(st.lists(st.sampled_from("-+0 #"), max_size=3, unique=True)))
        if not math.isfinite(value):
            flags = flags.replace("0", "")
        effective = flags.replace("0", "") if "-" in flags else flags
        precision = draw(st.one_of(PRECISION, st.sampled_from([".", ".0", ".*"])))
        p = {None: "", ".*": "", ".": ".0"}.get(precision, precision)
        c = "f" if kind == "a" else specifier
        expected = f"%{effective}{w}{p}{c}" % value
        decoder = "f"
    else:
        text = draw(st.text(alphabet=st.characters(
            min_codepoint=0x20, max_codepoint=0x2FFF, exclude_categories=("Cs",)),
            max_size=20))
        specifier = draw(st.sampled_from("s@S"))
        flags = draw(st.sampled_from(["", "-"]))
        precision = draw(st.one_of(PRECISION, st.sampled_from([".", ".0", ".*"])))
        p = "" if precision in (None, ".", ".0", ".*") else precision
        data = text.encode("utf-8") + draw(st.sampled_from([b"", b"\x00"]))
        expected = f"%{flags}{w}{p}s" % text if data else "(null)"
        decoder = "s"
    return decoder, data, flags or None, width, precision, specifier, expected


def check_operator(case, ctx):
    decoder, data, flags, width, precision, specifier, expected = case
    description = f"%{flags or ''}{width or ''}{precision or ''}{specifier} of {data!r}"
    ctx.note(bool(flags or width or precision), key=description, sample=description,
             labels=[f"specifier:{specifier}"])
    operator_object = unified_logging.FormatStringOperator(
        flags=flags, precision=precision, specifier=specifier, width=width)
    decoder_object = OBJECTS[decoder]()
    equal(decoder_object.FormatValue(data, format_string_operator=operator_object), expected,
          description)
    # The signpost decoders format the value as the specifier would.
    if specifier in "aAeEfFgG":
        value = struct.unpack("<f" if len(data) == 4 else "<d", data)[0]
        expected = f"{value:.16g}"
    elif not data:
        expected = ""
    elif specifier == "x" and not any(data) and "#" in (flags or ""):
        return
    elif specifier == "X" and not any(data) and "#" in (flags or ""):
        return
    signpost = unified_logging.SignpostTelemetryNumberFormatStringDecoder(number=2)
    equal(signpost.FormatValue(data, format_string_operator=operator_object),
          f"__##__signpost.telemetry#____#number2#_##_#{expected}##__##",
          f"telemetry number {description}")
    signpost = unified_logging.SignpostDescriptionAttributeFormatStringDecoder()
    equal(signpost.FormatValue(data, format_string_operator=operator_object),
          f"__##__signpost.description#____#attribute#_##_#{expected}##__##",
          f"attribute {description}")


def lookup(table, size=4, signed=False, template="{0:s}"):
    def reference(data):
        if len(data) != size:
            return UNSUPPORTED
        value = int.from_bytes(data, "little", signed=signed)
        return template.format(table.get(value, f"<decode: unknown value: {value:d}>"), value)
    return reference


def sized(size, function):
    return lambda data: function(data) if len(data) == size else UNSUPPORTED


def boolean(no, yes):
    return lambda data: yes if any(data) else no


def file_mode(data):
    value = int.from_bytes(data, "little")
    kind = {0x1000: "p", 0x2000: "c", 0x4000: "d", 0x6000: "b", 0xA000: "l",
            0xC000: "s"}.get(value & 0xF000, "-")
    return kind + stat.filemode(value & 0o777 | 0x8000)[1:]


def socket_address(data):
    if not data:
        return "<NULL>"
    if len(data) == 16 and data[1] == 2:
        return str(ipaddress.IPv4Address(data[4:8]))
    if len(data) == 28 and data[1] == 30:
        return ipaddress.IPv6Address(data[8:24])
    return UNSUPPORTED


DNS_FLAGS = [(10, "AA"), (9, "TC"), (8, "RD"), (7, "RA"), (5, "AD"), (4, "CD")]
DNS_OPCODES = ["Query", "IQuery", "Status", "Unassigned", "Notify", "Update", "DSO"]
DNS_CODES = ["NoError", "FormErr", "ServFail", "NXDomain", "NotImp", "Refused", "YXDomain",
             "YXRRSet", "NXRRSet", "NotAuth", "NotZone", "DSOTypeNI"]


def dns_flags(flags):
    opcode, code = flags >> 11 & 15, flags & 15
    parts = [("R/" if flags >> 15 else "Q/") +
             (DNS_OPCODES[opcode] if opcode < len(DNS_OPCODES) else "?")]
    parts.extend(name for bit, name in DNS_FLAGS if flags >> bit & 1)
    parts.append(DNS_CODES[code] if code < len(DNS_CODES) else "?")
    return f"0x{flags:04X} ({', '.join(parts)})"


def dns_header(data):
    values = struct.unpack(">6H", data)
    return (f"id: 0x{values[0]:04X} ({values[0]}), flags: {dns_flags(values[1])}, counts: "
            f"{values[2]}/{values[3]}/{values[4]}/{values[5]}")


def dns_identifier(data):
    flags, identifier, _ = struct.unpack("<HHI", data)
    return f"id: 0x{identifier:04X} ({identifier}), flags: {dns_flags(flags)}"


def dns_counts(data):
    return "/".join(f"{value}" for value in reversed(struct.unpack("<4H", data)))


def time_t(data):
    value = int.from_bytes(data, "little")
    if value >= 253402300800:
        # After the year 9999.
        return UNSUPPORTED
    return dt.date_time_string(value)


MANAGER = [  # name, format, offset
    ("previousAuthorizationStatusValid", "?", 35), ("paused", "?", 60),
    ("requestingLocation", "?", 17), ("updatingVehicleSpeed", "?", 65),
    ("desiredAccuracy", "<d", 8), ("allowsBackgroundLocationUpdates", "?", 61),
    ("dynamicAccuracyReductionEnabled", "?", 34), ("distanceFilter", "<d", 0),
    ("allowsLocationPrompts", "?", 32), ("activityType", "<q", 48),
    ("groundAltitudeEnabled", "?", 68), ("pausesLocationUpdatesAutomatially", "<i", 56),
    ("fusionInfoEnabled", "?", 69), ("isAuthorizedForWidgetUpdates", "?", 71),
    ("updatingVehicleHeading", "?", 66), ("batchingLocation", "?", 64),
    ("showsBackgroundLocationIndicator", "?", 62), ("updatingLocation", "?", 16),
    ("requestingRanging", "?", 18), ("updatingHeading", "?", 20),
    ("previousAuthorizationStatus", "<I", 36), ("allowsMapCorrection", "?", 63),
    ("matchInfoEnabled", "?", 67), ("allowsAlteredAccessoryLoctions", "?", 33),
    ("updatingRanging", "?", 19), ("limitsPrecision", "?", 40),
    ("courtesyPromptNeeded", "?", 70), ("headingFilter", "<d", 24)]


def location_manager(data):
    if len(data) not in (64, 72):
        return UNSUPPORTED
    values = []
    for name, code, offset in MANAGER:
        if offset >= len(data):
            continue
        value = struct.unpack_from(code, data, offset)[0]
        if code == "?":
            value = "true" if data[offset] else "false"
        elif code == "<d":
            value = f"{value:.0f}"
        values.append(f'"{name}":{value}')
    return f"{{{','.join(values)}}}"


def client_manager(data):
    status, restricted = struct.unpack("<II", data)
    return (f'{{"locationRestricted":{json.dumps(bool(restricted))},'
            f'"locationServicesEnabledStatus":{status}}}')


def text_of(data):
    try:
        return data.decode("utf-8").rstrip("\x00")
    except UnicodeDecodeError:
        return None


def escape_only(data):
    text = text_of(data)
    if text is None:
        return UNSUPPORTED
    return '"' + text.replace("/", "\\/") + '"'


def telemetry_string(data):
    text = text_of(data)
    if text is None:
        return UNSUPPORTED
    return f"__##__signpost.telemetry#____#string1#_##_#{text}##__##"


def security_identifier(data):
    if len(data) < 8:
        return UNSUPPORTED
    if len(data) < 8 + 4 * data[1]:
        return None
    parts = [data[0], int.from_bytes(data[2:8], "big")]
    parts.extend(struct.unpack_from(f"<{data[1]:d}I", data, 8))
    return "S-" + "-".join(f"{part}" for part in parts)


DETAILS = {0x23: "user", 0xA3: "user", 0xC3: "group", 0x24: "user", 0x44: "group",
           0xA0: "user", 0xA4: "user"}


def membership_details(data):
    if not data:
        return UNSUPPORTED
    kind = DETAILS.get(data[0])
    if kind is None:
        return f"ERROR: unsupported type: 0x{data[0]:02x}"
    if data[0] in (0x23, 0xA3, 0xC3):
        if len(data) < 5:
            return None
        name = f"{struct.unpack_from('<i', data, 1)[0]:d}"
        rest = data[5:]
    else:
        name, separator, rest = data[1:].partition(b"\x00")
        if not separator:
            return None
        name = text_of(name)
    domain, separator, _ = rest.partition(b"\x00")
    domain = text_of(domain)
    if not separator or name is None or domain is None:
        return None
    return f"{kind}: {name}@{domain}"


def mask_hash(data):
    if not data:
        return "<mask.hash: (null)>"
    return f"<mask.hash: '{base64.b64encode(data).decode('ascii')}'>"


def signpost_time(kind):
    return sized(8, lambda data: (
        f"__##__signpost.description#____#{kind}_time#_##_#"
        f"{int.from_bytes(data, 'little')}##__##"))


UL = unified_logging
WORD = st.one_of(st.integers(-10, 300), st.integers(0, 12), dt.s(32)).map(
    lambda value: struct.pack("<i", value))


def words(table):
    return st.one_of(st.sampled_from(sorted(table)).map(
        lambda value: struct.pack("<i", value)), WORD)


def fixed(*sizes):
    return st.sampled_from(sizes).flatmap(lambda size: st.binary(min_size=size, max_size=size))


DNS16 = st.one_of(dt.u(16), st.builds(
    lambda opcode, bits, code: opcode << 11 | bits | code, st.integers(0, 15),
    st.sampled_from([0, 0x8000, 0x0100, 0x8180, 0x0030, 0x0200]), st.integers(0, 15)))
IPV6 = st.one_of(st.binary(min_size=16, max_size=16), st.lists(
    st.sampled_from([b"\0\0", b"\0\0", b"\0\x01", b"\xfe\x80", b"\x20\x01"]), min_size=8,
    max_size=8).map(b"".join))
NAMES = st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=0x7FF), max_size=8).map(
    lambda text: text.encode("utf-8"))

# name: (decoder, reference, strategy)
DECODERS = {
    "bool": (lambda: UL.BooleanFormatStringDecoder(), boolean("false", "true"),
             fixed(1, 2, 4, 8)),
    "BOOL": (lambda: UL.BooleanFormatStringDecoder(false_value="NO", true_value="YES"),
             boolean("NO", "YES"), fixed(1, 4)),
    "time_t": (lambda: UL.DateTimeInSecondsFormatStringDecoder(), time_t, st.one_of(
        dt.u(32).map(lambda value: struct.pack("<I", value)),
        st.integers(0, 253402300799).map(lambda value: struct.pack("<q", value)),
        st.integers(-2, 2).map(lambda value: struct.pack("<q", 253402300800 + value)),
        fixed(8))),
    "errno": (lambda: UL.ErrorCodeFormatStringDecoder(),
              lookup(aul_tables.ERRNO, signed=True), words(aul_tables.ERRNO)),
    "darwin.errno": (lambda: UL.ExtendedErrorCodeFormatStringDecoder(),
                     lookup(aul_tables.ERRNO, signed=True, template="[{1:d}: {0:s}]"),
                     words(aul_tables.ERRNO)),
    "darwin.mode": (lambda: UL.FileModeFormatStringDecoder(), file_mode,
                    st.one_of(dt.u(16).map(lambda value: struct.pack("<I", value)),
                              fixed(2, 4))),
    "in_addr": (lambda: UL.IPv4FormatStringDecoder(),
                sized(4, lambda data: str(ipaddress.IPv4Address(data))), fixed(4)),
    "in6_addr": (lambda: UL.IPv6FormatStringDecoder(), sized(16, ipaddress.IPv6Address),
                 IPV6),
    "client manager": (lambda: UL.LocationClientManagerStateFormatStringDecoder(),
                       sized(8, client_manager), fixed(8)),
    "location manager": (lambda: UL.LocationLocationManagerStateFormatStringDecoder(),
                         location_manager, st.one_of(fixed(64, 72), st.builds(
                             lambda parts, size: b"".join(parts)[:size],
                             st.lists(st.sampled_from(
                                 [bytes(8), struct.pack("<d", 1), struct.pack("<d", -1),
                                  b"\1\0\0\1\0\1\0\0"]), min_size=9, max_size=9),
                             st.sampled_from([64, 72])))),
    "authorization": (lambda: UL.LocationClientAuthorizationStatusFormatStringDecoder(),
                      lambda data: lookup(aul_tables.AUTHORIZATION, size=len(data),
                                          template='"{0:s}"')(data),
                      st.one_of(st.integers(0, 6), dt.u(64)).map(
                          lambda value: struct.pack("<Q", value))),
    "escape_only": (lambda: UL.LocationEscapeOnlyFormatStringDecoder(), escape_only,
                    st.one_of(st.binary(max_size=8), NAMES,
                              st.text(alphabet="/\\ab\"\u20ac\x00", max_size=8).map(str.encode))),
    "sqlite": (lambda: UL.LocationSQLiteResultFormatStringDecoder(),
               lookup(aul_tables.SQLITE, template='"{0:s}"'), words(aul_tables.SQLITE)),
    "mask.hash": (lambda: UL.MaskHashFormatStringDecoder(), mask_hash,
                  st.one_of(fixed(16), st.binary(max_size=20))),
    "dns.counts": (lambda: UL.MDNSDNSCountersFormatStringDecoder(), sized(8, dns_counts),
                   fixed(8)),
    "dnshdr": (lambda: UL.MDNSDNSHeaderFormatStringDecoder(), sized(12, dns_header),
               st.builds(lambda flags, rest: rest[:2] + struct.pack(">H", flags) + rest[2:],
                         DNS16, fixed(10))),
    "dns.idflags": (lambda: UL.MDNSDNSIdentifierAndFlagsFormatStringDecoder(),
                    sized(8, dns_identifier),
                    st.builds(lambda flags, rest: struct.pack("<H", flags) + rest, DNS16,
                              fixed(6))),
    "mdns:protocol": (lambda: UL.MDNSProtocolFormatStringDecoder(),
                      lookup(aul_tables.MDNS_PROTOCOL), words(aul_tables.MDNS_PROTOCOL)),
    "mdns:nreason": (lambda: UL.MDNSReasonFormatStringDecoder(),
                     lookup(aul_tables.MDNS_REASON), words(aul_tables.MDNS_REASON)),
    "mdns:rrtype": (lambda: UL.MDNSResourceRecordTypeFormatStringDecoder(),
                    lookup(aul_tables.MDNS_RRTYPE), words(aul_tables.MDNS_RRTYPE)),
    "ODError": (lambda: UL.OpenDirectoryErrorFormatStringDecoder(),
                lookup(aul_tables.OD_ERROR), words(aul_tables.OD_ERROR)),
    "mbridtype": (lambda: UL.OpenDirectoryMembershipTypeFormatStringDecoder(),
                  lookup(aul_tables.OD_TYPE), words(aul_tables.OD_TYPE)),
    "mbr_details": (lambda: UL.OpenDirectoryMembershipDetailsFormatStringDecoder(),
                    membership_details, st.builds(
                        lambda kind, name, domain, end: bytes([kind]) + name + domain + end,
                        st.one_of(st.sampled_from(sorted(DETAILS)), dt.u(8)),
                        st.one_of(WORD, NAMES.map(lambda name: name + b"\x00"), NAMES),
                        NAMES, st.sampled_from([b"\x00", b"\x00", b"", b"\x00ab"]))),
    "nt_sid_t": (lambda: UL.WindowsNTSecurityIdentifierFormatStringDecoder(),
                 security_identifier, st.builds(
                     lambda authority, parts, extra: b"\x01" + bytes([
                         max(0, len(parts) + extra)]) + authority + b"".join(parts) + bytes(
                             max(0, -extra)), fixed(6), st.lists(fixed(4), max_size=6),
                     st.sampled_from([0, 0, 0, 1]))),
    "begin_time": (lambda: UL.SignpostDescriptionTimeFormatStringDecoder(time="begin"),
                   signpost_time("begin"), fixed(8)),
    "end_time": (lambda: UL.SignpostDescriptionTimeFormatStringDecoder(time="end"),
                 signpost_time("end"), fixed(8)),
    "string1": (lambda: UL.SignpostTelemetryStringFormatStringDecoder(number=1),
                telemetry_string, st.one_of(st.binary(max_size=8), NAMES)),
    "sockaddr": (lambda: UL.SocketAddressFormatStringDecoder(), socket_address, st.one_of(
        st.just(b""), fixed(1, 2),
        fixed(14).map(lambda data: b"\x10\x02" + data),
        st.builds(lambda port, address, scope: b"\x1c\x1e" + port + address + scope,
                  fixed(6), IPV6, fixed(4)),
        st.builds(lambda family, data: bytes([len(data) + 2, family]) + data,
                  st.sampled_from([2, 30, 1]),
                  fixed(*range(3, 22), *(2 * tuple(range(9, 20)) + 4 * tuple(range(22, 31))))))),
    "uuid_t": (lambda: UL.UUIDFormatStringDecoder(),
               sized(16, lambda data: str(uuid.UUID(bytes=data)).upper()), fixed(16)),
}


@st.composite
def decoder_case(draw):
    name = draw(st.sampled_from(sorted(DECODERS)))
    data = draw(st.one_of(DECODERS[name][2], DECODERS[name][2], DECODERS[name][2],
                          st.binary(max_size=30)))
    return name, data


def check_decoder(case, ctx):
    name, data = case
    create, reference, _ = DECODERS[name]
    ctx.note(any(data), key=f"{name} {data!r}", sample=f"{name} {data!r}",
             labels=[f"decoder:{name}"])
    operator_object = unified_logging.FormatStringOperator(specifier="d")
    expected = reference(data)
    decoder = create()
    try:
        found = decoder.FormatValue(data, format_string_operator=operator_object)
    except unified_logging.errors.ParseError:
        require(expected is None, f"{name} of {data!r}: ParseError instead of {expected!r}")
        return
    except Exception as exception:
        raise Violation(f"{name} of {data!r}: {exception!r}") from exception
    require(isinstance(found, str), f"{name} of {data!r}: {found!r}")
    if isinstance(expected, ipaddress.IPv6Address):
        try:
            found = ipaddress.IPv6Address(found)
        except ValueError:
            raise Violation(f"{name} of {data!r}: not an IPv6 address: {found!r}") from None
    if expected is not None:
        equal(found, expected, f"{name} of {data!r}")
        equal(decoder.FormatValue(data), expected if isinstance(expected, str)
              else decoder.FormatValue(data), f"{name} of {data!r} without operator")


def renamed(key, number):
    """The reference of a telemetry string for another number."""
    reference = DECODERS[key][1]

    def function(data):
        expected = reference(data)
        return expected and expected.replace("#string1#", f"#string{number}#")
    return function


def signpost_integer(label):
    def function(data):
        value = int.from_bytes(data, "little", signed=True)
        return f"__##__signpost.{label}#_##_#{value}##__##"
    return function


INTEGER = st.one_of(dt.s(32).map(lambda value: struct.pack("<i", value)),
                    dt.s(64).map(lambda value: struct.pack("<q", value)))
# The decoders by the name used in format strings: reference, values.
NAMED = {
    name: (DECODERS[key][1], DECODERS[key][2]) for name, key in {
        "bool": "bool", "BOOL": "BOOL", "time_t": "time_t", "errno": "darwin.errno",
        "darwin.errno": "darwin.errno", "darwin.mode": "darwin.mode", "in_addr": "in_addr",
        "network:in_addr": "in_addr", "in6_addr": "in6_addr", "network:in6_addr": "in6_addr",
        "sockaddr": "sockaddr", "network:sockaddr": "sockaddr", "uuid_t": "uuid_t",
        "location:_CLClientManagerStateTrackerState": "client manager",
        "location:_CLLocationManagerStateTrackerState": "location manager",
        "location:CLClientAuthorizationStatus": "authorization",
        "location:escape_only": "escape_only", "location:SqliteResult": "sqlite",
        "mask.hash": "mask.hash", "mdns:dns.counts": "dns.counts",
        "mdns:dns.idflags": "dns.idflags", "mdns:dnshdr": "dnshdr",
        "mdns:protocol": "mdns:protocol", "mdns:nreason": "mdns:nreason",
        "mdns:rrtype": "mdns:rrtype", "odtypes:mbr_details": "mbr_details",
        "odtypes:mbridtype": "mbridtype", "odtypes:nt_sid_t": "nt_sid_t",
        "odtypes:ODError": "ODError", "signpost.description:begin_time": "begin_time",
        "signpost.description:end_time": "end_time",
        "signpost.telemetry:string1": "string1"}.items()}
NAMED.update({
    "mdns:acceptable": (boolean("unacceptable", "acceptable"), fixed(1, 4)),
    "mdns:addrmv": (boolean("rmv", "add"), fixed(1, 4)),
    "mdns:yesno": (boolean("no", "yes"), fixed(1, 4)),
    "signpost.telemetry:string2": (renamed("string1", 2), DECODERS["string1"][2]),
    "signpost.telemetry:number1": (signpost_integer("telemetry#____#number1"), INTEGER),
    "signpost.telemetry:number2": (signpost_integer("telemetry#____#number2"), INTEGER),
    "signpost.telemetry:number3": (signpost_integer("telemetry#____#number3"), INTEGER),
    "signpost.description:attribute": (
        signpost_integer("description#____#attribute"), INTEGER)})
IPV6_NAMES = ("in6_addr", "network:in6_addr")


@st.composite
def named_case(draw):
    """Log entries of which the format string names a decoder."""
    names = draw(st.lists(st.sampled_from(sorted(NAMED)), min_size=1, max_size=12))
    values = []
    for name in names:
        data = draw(NAMED[name][1])
        if name.startswith("mdns:") and name in ("mdns:yesno", "mdns:addrmv",
                                                 "mdns:acceptable"):
            data = draw(st.one_of(st.just(data), st.just(bytes(len(data)))))
        other = draw(st.sampled_from(["", "", "public, ", "name=x,"]))
        values.append((name, other, data, draw(st.sampled_from([0x20, 0x30, 0x32, 0xF2]))))
    return values, draw(st.sampled_from("df").map(lambda _: "d"))


def check_named(case, ctx):
    values, specifier = case
    identifier = uuid.UUID(int=0x1234)
    formats, points, offset = [], b"", 1000
    for index, (name, other, data, kind) in enumerate(values):
        text = f"<{index}%{{{other}{name}}}{specifier}>"
        formats.append((offset, [[text]]))
        content = struct.pack("<IBB", 5, 0, 1) + struct.pack("<BBHH", kind, 4, 0, len(data))
        content += data
        points += tracev3.align(struct.pack(
            "<BBHIQIHH", 4, 0, 2, offset, 2, index, 0, len(content)) + content)
        offset += len(text) + 1
    ctx.note(len(values) > 1, key=repr(case), sample=repr(case)[:300],
             labels=[f"named:{value[0]}" for value in values])
    p = dict(upper=1, lower=2, pid=3, euid=0, main=0, dsc=-1, images=[], subsystems=[])
    body = tracev3.align(tracev3.chunk(0x600B, tracev3.catalog_data(
        (["x"], [p], [], 0), [identifier]), 17))
    data = tracev3.chunk(0x6001, tracev3.common_header(p, 0, struct.pack(
        "<BHHHHBBQ", 0, 0, len(points) + 16, 4096, 0, 0, 0, 9)) + points)
    data = b"bv4-" + struct.pack("<I", len(data)) + data + b"bv4$"
    body += tracev3.chunk(0x600D, data)
    header = dict(numerator=1, denominator=1, start=0, timestamp=0, zone=0, dst=0, flags=1,
                  continuous=0, build="", model="", pid=0, status=0, path="")
    model = dict(header=header, common=dict(boot=identifier))
    entries = []
    with ctx.directory() as root:
        archive = os.path.join(root, "system_logs.logarchive")
        path = os.path.join(archive, "Persist", "1.tracev3")
        name = identifier.hex.upper()
        text_path = os.path.join(archive, name[:2], name[2:])
        for file_path, file_data in (
                (path, tracev3.header_data(model) + body),
                (text_path, tracev3.uuidtext_data(formats, "/bin/x"))):
            os.makedirs(os.path.dirname(file_path))
            with open(file_path, "wb") as file_object:
                file_object.write(file_data)
        os.makedirs(os.path.join(archive, "dsc"))
        trace_file = unified_logging.TraceV3File()
        trace_file.Open(path)
        failed = None
        try:
            for entry in trace_file.ReadLogEntries():
                entries.append(entry)
        except unified_logging.errors.ParseError:
            failed = len(entries)
        finally:
            trace_file.Close()
    for index, (name, _, data, _) in enumerate(values):
        expected = NAMED[name][0](data)
        if expected is None:
            require(failed in (None, index), f"{name} of {data!r}: other error")
            if failed == index:
                return
            continue
        require(failed != index, f"{name} of {data!r}: ParseError in log entry")
        message = entries[index].event_message
        prefix = f"<{index}"
        require(message.startswith(prefix) and message.endswith(">"),
                f"message {message!r} of {values[index]!r}")
        found = message[len(prefix):-1]
        if isinstance(expected, ipaddress.IPv6Address):
            try:
                found = ipaddress.IPv6Address(found)
            except ValueError:
                raise Violation(f"{name} of {data!r}: {found!r}") from None
        equal(found, expected, f"value of %{{{name}}} {data!r} in the message")
    equal(len(entries), len(values), "number of log entries")


@st.composite
def any_value(draw):
    """An operator and value data that need not match."""
    return (draw(st.sampled_from(["i", "u", "f", "s"])),
            draw(st.binary(max_size=10)), draw(FLAGS) or None,
            draw(st.one_of(WIDTH, st.just("*"))),
            draw(st.one_of(PRECISION, st.sampled_from([".", ".0", ".*"]))))


SPECIFIERS_OF = {"i": "dDi", "u": "cCoOpuUxX", "f": "aAeEfFgG", "s": "@PsS"}


def check_total(case, ctx):
    (decoder, data, flags, width, precision), index = case
    specifier = SPECIFIERS_OF[decoder][index % len(SPECIFIERS_OF[decoder])]
    description = f"%{flags or ''}{width or ''}{precision or ''}{specifier} of {data!r}"
    ctx.note(bool(data), key=description, sample=description)
    operator_object = unified_logging.FormatStringOperator(
        flags=flags, precision=precision, specifier=specifier, width=width)
    for decoder_object in (
            OBJECTS[decoder](), UL.SignpostDescriptionAttributeFormatStringDecoder(),
            UL.SignpostTelemetryNumberFormatStringDecoder(number=1)):
        try:
            found = decoder_object.FormatValue(data, format_string_operator=operator_object)
        except Exception as exception:
            raise Violation(f"{description}: {type(decoder_object).__name__} "
                            f"{exception!r}") from exception
        require(isinstance(found, str), f"{description}: {found!r}")
    sizes = (1, 2, 4, 8) if decoder in "iu" else (4, 8)
    if decoder != "s" and len(data) not in sizes:
        equal(OBJECTS[decoder]().FormatValue(data, format_string_operator=operator_object),
              UNSUPPORTED, description)
    # What the signpost decoders cannot format.
    if decoder == "s":
        unsupported = specifier == "P" or text_of(data) is None
    else:
        unsupported = len(data) not in sizes or (
            specifier in "cC" and int.from_bytes(data, "little") > 0x10FFFF)
    if data and unsupported:
        for number in (1, 2, 3):
            signpost = UL.SignpostTelemetryNumberFormatStringDecoder(number=number)
            equal(signpost.FormatValue(data, format_string_operator=operator_object),
                  f"__##__signpost.telemetry#____#number{number}#_##_#{UNSUPPORTED}##__##",
                  f"telemetry number {description}")
        signpost = UL.SignpostDescriptionAttributeFormatStringDecoder()
        equal(signpost.FormatValue(data, format_string_operator=operator_object),
              f"__##__signpost.description#____#attribute#_##_#{UNSUPPORTED}##__##",
              f"attribute {description}")


TABLES = [("errno", aul_tables.ERRNO), ("darwin.errno", aul_tables.ERRNO),
          ("sqlite", aul_tables.SQLITE), ("mdns:protocol", aul_tables.MDNS_PROTOCOL),
          ("mdns:nreason", aul_tables.MDNS_REASON), ("mdns:rrtype", aul_tables.MDNS_RRTYPE),
          ("ODError", aul_tables.OD_ERROR), ("mbridtype", aul_tables.OD_TYPE)]


def check_tables(case, ctx):
    """Every described value, and its neighbours."""
    for name, table in TABLES:
        for value in sorted({value + delta for value in table for delta in (-1, 0, 1)}):
            check_decoder((name, struct.pack("<i", value)), ctx)
    for value in range(7):
        check_decoder(("authorization", struct.pack("<Q", value)), ctx)


SUBTESTS = [
    SubTest("tables", st.just(None), check_tables, 1, 1),
    SubTest("format_strings", format_string(), check_format_string, 1000, 40000),
    SubTest("operators", number(), check_operator, 2000, 60000),
    SubTest("decoders", decoder_case(), check_decoder, 5000, 100000),
    SubTest("named", named_case(), check_named, 400, 6000),
    SubTest("any_value", st.tuples(any_value(), st.integers(0, 40)), check_total, 500, 40000),
]
