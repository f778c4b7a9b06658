"""Drives the dtformats parsers and reads back their debug output."""

import io
import os
import re

from vf import Violation, st  # noqa: F401

from dtformats import errors  # noqa: F401,E402


class Recorder:
    """Output writer that records the text."""

    def __init__(self):
        self.parts = []

    def Open(self):
        return True

    def Close(self):
        return

    def WriteText(self, text):
        if not isinstance(text, str):
            raise Violation(f"WriteText called with {type(text).__name__}")
        self.parts.append(text)

    @property
    def text(self):
        return "".join(self.parts)


def read_file(cls, path, debug=True, **kwargs):
    """Opens and closes a file; returns the parser and the debug text."""
    recorder = Recorder()
    parser = cls(debug=debug, output_writer=recorder, **kwargs)
    parser.Open(path)
    parser.Close()
    return parser, recorder.text


_LINE = re.compile(r"^([^\t\n]*)\t+: (.*)$")


def values(text):
    """Returns the (description, value) pairs of the debug text."""
    pairs = []
    for line in text.split("\n"):
        match = _LINE.match(line)
        if match:
            pairs.append((match.group(1), match.group(2)))
    return pairs


def select(text, labels):
    """Returns the pairs of which the description is in labels."""
    labels = set(labels)
    return [pair for pair in values(text) if pair[0] in labels]


def dictionary(text, labels=None):
    """Returns description -> list of values."""
    result = {}
    for label, value in values(text):
        if labels is None or label in labels:
            result.setdefault(label, []).append(value)
    return result


_HEXLINE = re.compile(
    r"^0x([0-9a-f]{8})  ((?:[0-9a-f]{2} ?){1,8})(?: ((?:[0-9a-f]{2} ?){0,8}))?.*$")


def hexdump_data(lines):
    """Decodes hexdump lines (including "..." for repeated lines) to bytes."""
    data = bytearray()
    repeat = None
    previous = b""
    for line in lines:
        if line == "...":
            repeat = previous
            continue
        offset = int(line[2:10], 16)
        if repeat is not None:
            if not repeat:
                raise Violation("hexdump: repeat marker without preceding line")
            while len(data) < offset:
                data.extend(repeat)
            repeat = None
        if offset != len(data):
            raise Violation(
                f"hexdump: line offset 0x{offset:x} but {len(data):d} bytes so far")
        hexadecimal = line[12:12 + 49]
        previous = bytes.fromhex(hexadecimal.replace(" ", ""))
        printable = line[12 + 49 + 1:] if len(line) > 62 else ""
        del printable
        data.extend(previous)
    if repeat is not None:
        raise Violation("hexdump: ends in a repeat marker")
    return bytes(data)


def dumps(text):
    """Returns [(description, bytes)] of the hexdumps in the debug text."""
    result = []
    lines = text.split("\n")
    index = 0
    while index < len(lines):
        line = lines[index]
        if line.endswith(":") and "\t" not in line:
            start = index + 1
            end = start
            while end < len(lines) and (
                    lines[end] == "..." or re.match(r"^0x[0-9a-f]{8}  ", lines[end])):
                end += 1
            result.append((line[:-1], hexdump_data(lines[start:end])))
            index = max(end, index + 1)
        else:
            index += 1
    return result


# Reference formatting of timestamps, independent of dfdatetime.

_DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def civil(days):
    """Days since 1970-01-01 to (year, month, day); proleptic Gregorian."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + 1 if m <= 2 else y), m, d


def date_time_string(seconds, fraction=None, digits=0):
    """Seconds since 1970-01-01 00:00:00 to a date and time string."""
    days, rest = divmod(seconds, 86400)
    year, month, day = civil(days)
    hours, rest = divmod(rest, 3600)
    minutes, secs = divmod(rest, 60)
    text = (f"{year:04d}-{month:02d}-{day:02d} "
            f"{hours:02d}:{minutes:02d}:{secs:02d}")
    if digits:
        text = f"{text}.{fraction:0{digits}d}"
    return text


def posix(seconds):
    if seconds == 0:
        return "Not set (0)"
    return f"{date_time_string(seconds)} UTC"


def posix_us(microseconds):
    if microseconds == 0:
        return "Not set (0)"
    seconds, fraction = divmod(microseconds, 1000000)
    return f"{date_time_string(seconds, fraction, 6)} UTC"


def posix_ns(nanoseconds):
    if nanoseconds == 0:
        return "Not set (0)"
    seconds, fraction = divmod(nanoseconds, 1000000000)
    return f"{date_time_string(seconds, fraction, 9)} UTC"


def filetime(value):
    if value == 0:
        return "Not set (0)"
    if value == 0x7FFFFFFFFFFFFFFF:
        return "Never (0x7fffffffffffffff)"
    seconds, fraction = divmod(value, 10000000)
    return f"{date_time_string(seconds - 11644473600, fraction, 7)} UTC"


def hfstime(value):
    if value == 0:
        return "Not set (0)"
    return f"{date_time_string(value - 2082844800)} UTC"


# Generators shared by the checks.

def u(bits):
    """Unsigned integers with boundary values."""
    top = (1 << bits) - 1
    return st.one_of(
        st.integers(0, top), st.integers(0, min(top, 300)),
        st.sampled_from(sorted({0, 1, top, top >> 1, (top >> 1) + 1})))


def s(bits):
    """Signed integers with boundary values."""
    low, high = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return st.one_of(
        st.integers(low, high), st.integers(-3, min(high, 300)),
        st.sampled_from([low, -1, 0, 1, high]))


ASCII = st.text(
    alphabet=[chr(c) for c in range(0x20, 0x7F)], min_size=0, max_size=24)
ASCII1 = st.text(
    alphabet=[chr(c) for c in range(0x20, 0x7F)], min_size=1, max_size=24)
NAME = st.text(
    alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-",
    min_size=1, max_size=16)
# Text without control characters (so that it stays on one output line),
# without surrogates, including characters outside the basic plane.
UNICODE = st.text(
    alphabet=st.characters(
        min_codepoint=0x20, max_codepoint=0x1FFFF,
        exclude_categories=("Cs", "Cc", "Zl", "Zp", "Cn")),
    min_size=0, max_size=20)
UNICODE1 = st.text(
    alphabet=st.characters(
        min_codepoint=0x20, max_codepoint=0x1FFFF,
        exclude_categories=("Cs", "Cc", "Zl", "Zp", "Cn")),
    min_size=1, max_size=20)


def files_unchanged(path, data):
    with open(path, "rb") as file_object:
        if file_object.read() != data:
            raise Violation(f"input file modified: {os.path.basename(path)}")


__all__ = [name for name in dir() if not name.startswith("_")]
io  # noqa: B018


def wrong(good, bits, number, special=()):
    """Returns an integer other than good: a special one or with one bit changed."""
    special = [value for value in special if value != good]
    if special and number % 2:
        return special[number // 2 % len(special)]
    return good ^ (1 << (number // 2 % bits))


def hex2(value):
    return f"0x{value:02x}"


def hex4(value):
    return f"0x{value:04x}"


def hex8(value):
    return f"0x{value:08x}"


def offset(value):
    return f"{value:d} (0x{value:08x})"


def pairs_equal(text, expected, what="debug output", labels=()):
    """Compares the debug values, in order, of every label that is expected.

    Args:
      text: debug output.
      expected: list of (label, value).
      labels: labels that must not occur beyond those expected.
    """
    names = {label for label, _ in expected} | set(labels)
    actual = [pair for pair in values(text) if pair[0] in names]
    expected = [(label, str(value)) for label, value in expected]
    for index, (a, e) in enumerate(zip(actual, expected)):
        if a != e:
            raise Violation(
                f"{what}: value {index:d}: expected {e[0]!r}: {e[1][:300]!r} but got "
                f"{a[0]!r}: {a[1][:300]!r}")
    if len(actual) != len(expected):
        surplus = actual[len(expected):]
        if surplus:
            raise Violation(f"{what}: surplus value {surplus[0]!r}")
        raise Violation(f"{what}: missing value {expected[len(actual)]!r}")


def rejected(cls, path, what, **kwargs):
    """Requires that opening the file raises ParseError."""
    from dtformats import errors
    for debug in (False, True):
        parser = cls(debug=debug, output_writer=Recorder(), **kwargs)
        try:
            parser.Open(path)
        except errors.ParseError:
            continue
        parser.Close()
        raise Violation(f"{what}: accepted (debug={debug!s})")


# Seconds since 1970 up to the end of the year 9999.
POSIX_SECONDS = st.one_of(
    st.integers(0, 253402300799), st.integers(0, 0xFFFFFFFF),
    st.sampled_from([0, 1, 59, 60, 86399, 86400, 951782399, 951782400, 951868800,
                     1078012800, 4107542400, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]))
POSIX32 = st.one_of(
    st.integers(0, 0xFFFFFFFF),
    st.sampled_from([0, 1, 59, 60, 86399, 86400, 951782400, 0x7FFFFFFF, 0xFFFFFFFF]))
# 100 ns intervals since 1601 up to the end of the year 9999.
FILETIME = st.one_of(
    st.integers(0, 2650467743999999999), st.integers(0, 20000000),
    st.sampled_from([0, 1, 9999999, 10000000, 0x7FFFFFFFFFFFFFFF,
                     116444736000000000, 130000000000000000]))

__all__ = [name for name in dir() if not name.startswith("_")]


def many(element, max_size=4, min_size=0, sizes=(17, 33, 70, 130, 260)):
    """Lists, now and then (1 of 16) one that is much longer than the others."""
    small = st.lists(element, min_size=min_size, max_size=max_size)
    large = st.tuples(
        st.lists(element, min_size=1, max_size=3), st.sampled_from(sizes)).map(
            lambda value: (value[0] * value[1])[:value[1]])
    return st.integers(0, 15).flatmap(lambda n: large if n == 11 else small)
