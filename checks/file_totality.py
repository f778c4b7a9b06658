"""P04: every file is read, or rejected with a ParseError, in bounded time and memory."""

import contextlib
import os
import resource

import dt
import generators
from vf import NonTermination, SubTest, Violation, cpu_budget, require, st

from dtformats import errors

PROPERTY = "P04"
TITLE = "Every file, however damaged, is read or rejected with a ParseError"
STATEMENT = (
    "For every format, every sequence of bytes (or folder of files, for formats of several "
    "files), with debug output or not: reading a file "
    "with these bytes (open, read all entries, close) ends within a time and memory that "
    "do not exceed what its size justifies, and either succeeds or raises "
    "errors.ParseError. No other exception is raised, no file larger than the header "
    "claims is assumed, and the file is not changed.")
QUANTIFIER = "every format and every damage to a generated or sample file, or random bytes"
WHY = (
    "The tests read undamaged files. Damaged files are common in forensics, and the tools "
    "stop at the first exception that they do not expect.")
FILES = ["dtformats/*.py"]
MECHANISM = [
    ("errors", "BinaryDataFormat._ReadData, _ReadStructureFromByteStream, ReadFileObject"),
    ("bounded loops", "chains of pages, blocks, records and trees in each format"),
]
OBSERVE = ["exception type", "CPU time", "memory", "content of the file"]
TECHNIQUE = (
    "structure-aware mutation fuzzing of generated files of every format, with a crash, "
    "time and memory oracle")
RULE = "the damaged file differs from the generated file and is not empty"
ASSUMPTIONS = [
    "a Spotlight store of which the files of its streams maps are missing is an OSError",
    "20 s of CPU time and 2 GiB of memory suffice for files of up to 64 KiB"]

VALUES = [b"\x00", b"\xff", b"\x01", b"\x7f", b"\x80", b"\x00\x00", b"\xff\xff",
          b"\x00\x00\x00\x00", b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f",
          b"\x7f\xff\xff\xff", b"\x00\x00\x00\x80", b"\x80\x00\x00\x00", b"\xff" * 8,
          b"\xff" * 7 + b"\x7f", b"\x00" * 16, b"\x08\x00\x00\x00", b"\x00\x00\x00\x08",
          b"-", b"7", b"\x00\x00\x10\x00", b"\x00\x00\xf8\x7f", b"\x00\x00\xf0\xff"]
LIMIT = 2 << 30
SIZE = 65536


def repoint(data, number, other):
    """Makes what can be an offset or size in the file another one."""
    for order in (("little", "big") if number % 2 else ("big", "little")):
        found = []
        for where in range(0, min(len(data), 2048) - 3, 4):
            value = int.from_bytes(data[where:where + 4], order)
            if 8 <= value <= len(data):
                found.append((where, value))
        if found:
            where, value = found[number // 2 % len(found)]
            value = [found[other % len(found)][1], where & ~7, value - 8, value // 2,
                     found[other % len(found)][0] & ~15][number // 3 % 5]
            data = data[:where] + max(0, value).to_bytes(4, order) + data[where + 4:]
            break
    return data


def mutate(data, mutations):
    for kind, where, scale, value in mutations:
        size = len(data)
        if not size:
            break
        # Headers are damaged more often than the remainder.
        where %= min(size, (16, 64, 512, SIZE)[scale])
        if kind == "set":
            data = (data[:where] + value + data[where + len(value):])[:max(size, where + 1)]
        elif kind == "flip":
            data = (data[:where] + bytes([data[where] ^ (value[0] or 1)]) +
                    data[where + 1:])
        elif kind == "add":
            width = len(value) if len(value) in (1, 2, 4, 8) else 1
            number = int.from_bytes(data[where:where + width], "little")
            step = (value[0] % 7 - 3) or 1
            number = (number + step) % (1 << (8 * width))
            data = (data[:where] + number.to_bytes(width, "little") +
                    data[where + width:])[:size]
        elif kind == "cut":
            data = data[:where]
        elif kind == "cut from end":
            data = data[:size - where]
        elif kind == "remove":
            data = data[:where] + data[where + len(value):]
        elif kind == "insert":
            data = data[:where] + value + data[where:]
        elif kind == "copy":
            source = (where * 7919 + value[0]) % size
            block = data[source:source + 4 * len(value)]
            data = data[:where] + block + data[where + len(block):]
        elif kind == "pointer":
            data = repoint(data, where * 31 + value[0], value[-1])
        elif kind == "repeat":
            data = data[:where] + data[where:where + 64] * 3 + data[where + 64:]
    return data[:SIZE]


MUTATIONS = st.lists(st.tuples(
    st.sampled_from(["set", "set", "set", "flip", "add", "cut", "cut from end", "remove",
                     "insert", "copy", "repeat", "pointer", "pointer", "pointer"]),
    st.integers(0, SIZE), st.sampled_from([0, 1, 1, 2, 3, 3]),
    st.sampled_from(VALUES) | st.binary(min_size=1, max_size=4)), min_size=1, max_size=4)


@contextlib.contextmanager
def memory_limit():
    before = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm", encoding="ascii") as file_object:
        used = int(file_object.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + LIMIT, before[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, before)


def sample(driver):
    """Returns the sample files of the repository that are not too large."""
    result = []
    for path in driver.seeds:
        if os.path.exists(path):
            with open(path, "rb") as file_object:
                result.append((os.path.basename(path), file_object.read(SIZE)))
    return result


def check_target(target):
    driver = generators.ALL_DRIVERS[target]

    def check(case, ctx):
        item, damage, debug = case
        if target not in generators.FOLDERS:
            damage = [(0, damage)]

        def change(data, number, count):
            for which, mutations in damage:
                if which % count == number:
                    data = mutate(data, mutations)
            return data

        with ctx.directory() as root:
            path, contents = generators.place(target, item, root, change)
            parser = driver.create(debug, dt.Recorder())
            try:
                with cpu_budget(20), memory_limit():
                    parser.Open(path)
                    try:
                        if driver.drain:
                            generators.targets.snapshot(driver.drain(parser))
                    finally:
                        parser.Close()
                outcome = "read"
            except errors.ParseError as exception:
                require(str(exception), "ParseError without a message")
                outcome = "ParseError"
            except FileNotFoundError as exception:
                # Other files next to this one that the file refers to.
                require("spotlight" in target and "dbStr-" in str(exception),
                        f"{exception!s}")
                outcome = "incomplete"
            except NonTermination as exception:
                raise Violation(
                    f"{target}: reading does not end: {exception!s}") from exception
            except MemoryError as exception:
                raise Violation(f"{target}: reading uses more than 2 GiB") from exception
            changed = target in generators.FOLDERS or list(contents.values()) not in (
                [item[1]], [b""])
            ctx.note(changed, repr(list(contents.values())), (target, damage, debug),
                     labels=[outcome, f"debug:{debug}"])
            for name, data in contents.items():
                require(generators.content(name) == data, "file changed")
    return check


def cases(target):
    item = generators.files(target)
    samples = sample(generators.DRIVERS[target])
    if samples:
        item = st.one_of(item, item, item, st.sampled_from(samples))
    noise = st.tuples(item.map(lambda i: i[0]), st.binary(max_size=300))
    return st.tuples(st.one_of(item, item, item, item, item, item, noise), MUTATIONS,
                     st.booleans())


GENERATORS = {}
SUBTESTS = [
    SubTest(target, st.tuples(generators.items(target), st.lists(
        st.tuples(st.integers(0, 20), MUTATIONS), min_size=1, max_size=2), st.booleans()),
        check_target(target), 150, 8000)
    for target in generators.FOLDERS
] + [
    SubTest(target, cases(target), check_target(target), 80, 3000)
    for target in sorted(generators.DRIVERS)
]
