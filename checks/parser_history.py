"""P06: results depend on the file only, not on what was read before or besides it."""

import dt
import generators
from vf import SubTest, Violation, equal, st

PROPERTY = "P06"
TITLE = "What a parser reports depends on the file only, not on earlier or other files"
STATEMENT = (
    "For every format, every sequence of files (valid or damaged) and every choice of "
    "which of several parser objects reads which file, with debug output or not, also if "
    "two of them are open at the same time: the public attributes, entries and debug text "
    "that a parser gives for a file, or that it rejects the file, are those that a new "
    "parser gives for that file alone. Nothing of an earlier file remains and "
    "nothing accumulates.")
QUANTIFIER = "every format and every history of up to 6 reads by 2 parsers of 3 files"
WHY = "The tests read one file per parser object."
FILES = ["dtformats/*.py"]
MECHANISM = [
    ("state per file", "ReadFileObject of every format, data_format.BinaryDataFile"),
    ("shared state", "class attributes and data type maps of the formats"),
]
OBSERVE = ["public attributes and entries", "debug output", "error or not"]
TECHNIQUE = (
    "stateful property-based testing: histories of reads by reused and concurrently open "
    "parser objects, compared with new parser objects (differential oracle)")
RULE = "a parser reads two files that differ, or two parsers are open at the same time"
ASSUMPTIONS = ["files are read from start to end, by one thread"]
GENERATORS = {}


def damage(kind, position):
    """Returns the function that changes one of the files."""
    def change(data, number, count):
        if position % count != number or not data:
            return data
        where = position // count
        if kind == 1:
            return data[:where % len(data)]
        if kind == 2:
            index = where % min(len(data), 64)
            return data[:index] + bytes([data[index] ^ 0xFF]) + data[index + 1:]
        return data
    return change


class Reader:
    """Parser object that can be used for several files."""

    def __init__(self, driver, debug):
        self.driver = driver
        self.recorder = dt.Recorder()
        self.parser = driver.create(debug, self.recorder)

    def open(self, path):
        """Returns None, or the error."""
        self.recorder.parts.clear()
        try:
            self.parser.Open(path)
        except Exception as exception:  # noqa: BLE001
            return [type(exception).__name__]
        return None

    def drain(self):
        try:
            result = [targets_public(self.parser)]
            if self.driver.drain:
                result.append(snapshot(self.driver.drain(self.parser)))
        except Exception as exception:  # noqa: BLE001
            result = [type(exception).__name__]
        return result

    def close(self):
        self.parser.Close()
        return self.recorder.text

    def read(self, path):
        error = self.open(path)
        if error:
            return error
        result = self.drain()
        return [result, self.close()]


targets_public = generators.targets.public
snapshot = generators.targets.snapshot


def compare(actual, expected, what):
    if actual == expected:
        return
    if len(actual) == 2 and len(expected) == 2:
        for a, e, part in zip(actual, expected, ("results", "debug output")):
            if a != e and isinstance(a, str):
                for x, y in zip(a.split("\n"), e.split("\n")):
                    if x != y:
                        raise Violation(f"{what}: {part}: {x!r} instead of {y!r}")
            equal(a, e, f"{what}: {part}")
    equal(actual, expected, what)


def check_target(target):
    driver = generators.ALL_DRIVERS[target]

    def check(case, ctx):
        files, changes, steps, together, debug = case
        with ctx.directory() as root:
            paths = []
            keys = []
            for index, item in enumerate(files):
                folder = f"{root}/{index}"
                generators.os.mkdir(folder)
                path, contents = generators.place(
                    target, item, folder, damage(*changes[index]))
                paths.append(path)
                keys.append(repr(list(contents.values())))
            expected = [Reader(driver, debug).read(path) for path in paths]
            used = [set(), set()]
            readers = [Reader(driver, debug), Reader(driver, debug)]
            for number, (who, which) in enumerate(steps):
                which %= len(paths)
                used[who].add(keys[which])
                compare(readers[who].read(paths[which]), expected[which],
                        f"read {number + 1:d} of {[w % len(paths) for _, w in steps]}")
            ctx.note(together or max(map(len, used)) > 1, repr(case)[:2000],
                     (target, steps, changes), labels=[target])
            if together:
                which = [index % len(paths) for index in together[0]]
                opened = [reader.open(paths[index])
                          for reader, index in zip(readers, which)]
                drained = [None, None]
                for index in together[1]:
                    if opened[index] is None:
                        drained[index] = readers[index].drain()
                for index in (1, 0):
                    if opened[index] is None:
                        result = [drained[index], readers[index].close()]
                    else:
                        result = opened[index]
                    compare(result, expected[which[index]], "read while another is open")
            for path, result in zip(paths, expected):
                compare(Reader(driver, debug).read(path), result, "read by a new parser")
    return check


DAMAGE = st.tuples(st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 5000))
ORDER = st.sampled_from([(0, 1), (1, 0)])


def history(target):
    item = generators.items(target)
    return st.tuples(
        st.lists(item, min_size=1, max_size=3),
        st.lists(DAMAGE, min_size=3, max_size=3),
        st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2)), max_size=6),
        st.none() | st.tuples(st.tuples(st.integers(0, 2), st.integers(0, 2)), ORDER),
        st.booleans())


SUBTESTS = [
    SubTest(target, history(target), check_target(target), 20, 700)
    for target in sorted(generators.ALL_DRIVERS)
]
