"""P03: opening and closing of binary data files."""

import io
import os

import dt
import targets
from vf import SubTest, Violation, equal, require, st

from dtformats import data_format
from dtformats import errors
from dtformats import file_system

PROPERTY = "P03"
TITLE = "Open and Close keep exactly one read-only file open, whatever happens"
STATEMENT = (
    "For every history of Open and Close calls on a binary data file object, with "
    "files that exist, do not exist, cannot be read or are in an unsupported format: Open of an object that "
    "is already open and Close of one that is not raise OSError and change nothing; an "
    "Open that fails leaves the object closed, so that it can be used again; the file "
    "is open while the object is open and closed after Close and after a failed Open; the file is opened "
    "through the file system helper, read from its start with its size known, and never "
    "written. This holds for every format the library supports.")
QUANTIFIER = "every history of Open and Close, and every fault while opening or reading"
WHY = "The tests open and close a valid file once per format."
FILES = ["dtformats/data_format.py", "dtformats/file_system.py"]
MECHANISM = [("open and close", "data_format.BinaryDataFile.Open, Close")]
OBSERVE = ["exceptions", "open file descriptors of the process",
           "files opened through the file system helper and whether they are closed"]
TECHNIQUE = "stateful property-based testing with injected faults"
RULE = "a history with a failed Open, a second Open or a second Close"
ASSUMPTIONS = []


class Fault(Exception):
    """Injected fault."""


class Helper(file_system.NativeFileSystemHelper):
    """File system of in-memory files that records what is opened."""

    def __init__(self, files):
        self.files = files
        self.opened = []

    def GetFileSizeByPath(self, path):
        if path not in self.files:
            raise FileNotFoundError(path)
        return len(self.files[path])

    def OpenFileByPath(self, path):
        if path not in self.files or path.startswith("denied"):
            raise OSError(path)
        file_object = io.BytesIO(self.files[path])
        self.opened.append(file_object)
        return file_object


class File(data_format.BinaryDataFile):
    """Binary data file that follows instructions in its data."""

    def ReadFileObject(self, file_object):
        self.log.append((file_object, file_object.tell(), self._file_size))
        data = file_object.read()
        kind = data[:1]
        if kind == b"P":
            raise errors.ParseError("injected")
        if kind == b"F":
            raise Fault("injected")
        if kind == b"O":
            raise OSError("injected")


CONTENT = st.tuples(
    st.sampled_from([b"", b"ok", b"P", b"F", b"O"]), st.binary(max_size=20)).map(
    lambda t: t[0] + t[1] if t[0] else b"")
HISTORY = st.tuples(
    st.lists(CONTENT, min_size=1, max_size=4), st.lists(st.one_of(
        st.tuples(st.just("open"), st.integers(0, 5)),
        st.tuples(st.just("open"), st.integers(0, 5)),
        st.tuples(st.just("close"), st.just(0))), max_size=14))


def check_history(case, ctx):
    contents, operations = case
    files = {f"file{index:d}": data for index, data in enumerate(contents)}
    files["denied"] = b"ok"
    names = sorted(files) + ["missing"]
    helper = Helper(files)
    subject = File(file_system_helper=helper)
    subject.log = []
    is_open = False
    interesting = False
    errors_kept = []
    for number, (operation, index) in enumerate(operations):
        name = names[index % len(names)]
        what = f"operation {number:d} {operation:s}({name:s})"
        before = len(helper.opened)
        reads = len(subject.log)
        expected = None
        if operation == "open":
            data = files.get(name)
            if is_open or data is None or name == "denied" or data[:1] == b"O":
                expected = OSError
            elif data[:1] == b"P":
                expected = errors.ParseError
            elif data[:1] == b"F":
                expected = Fault
            will_read = not is_open and data is not None and name != "denied"
        else:
            expected = None if is_open else OSError
            will_read = False
        interesting |= expected is not None
        try:
            if operation == "open":
                subject.Open(name)
            else:
                subject.Close()
        except Exception as exception:  # pylint: disable=broad-except
            errors_kept.append(exception)
            if expected is None or not isinstance(exception, expected):
                raise Violation(f"{what}: unexpected {exception!r}")
        else:
            if expected is not None:
                raise Violation(f"{what}: succeeded, expected {expected.__name__}")
        if expected is None:
            is_open = operation == "open"
        if will_read:
            equal(len(helper.opened), before + 1, f"files opened by {what}")
            equal(len(subject.log), reads + 1, f"reads by {what}")
            file_object, position, size = subject.log[-1]
            require(file_object is helper.opened[-1], f"{what}: another file is read")
            equal(position, 0, f"{what}: position")
            equal(size, len(files[name]), f"{what}: file size")
        else:
            equal(len(helper.opened), before, f"files opened by {what}")
        still = [f for f in helper.opened if not f.closed]
        equal(len(still), 1 if is_open else 0, f"open files after {what}")
        if is_open:
            require(still[0] is helper.opened[-1], "another file is open")
    ctx.note(interesting, repr(case), case)


def descriptors(path):
    result = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{name:s}") == path:
                result += 1
        except OSError:
            pass
    return result


ALL = [target for target in targets.TARGETS]
FORMATS = st.tuples(
    st.integers(0, len(ALL) - 1), st.integers(0, 7), st.booleans(),
    st.lists(st.tuples(st.sampled_from(["seed", "damaged", "missing", "close"]),
                       st.integers(0, 1 << 20)), min_size=1, max_size=6))


def check_formats(case, ctx):
    number, seed_number, debug, operations = case
    target = ALL[number]
    seed = b""
    if target.seeds:
        with open(target.seeds[seed_number % len(target.seeds)], "rb") as file_object:
            seed = file_object.read(300000)
    with ctx.directory() as directory:
        # Some formats look for other files relative to the path of the file.
        parent = os.path.join(directory, "a", "b")
        os.makedirs(parent)
        good, bad = os.path.join(parent, "good"), os.path.join(parent, "bad")
        subject = target.create(debug, dt.Recorder())
        is_open = None
        kept = []
        failures = 0
        for operation, value in operations:
            if operation == "close":
                try:
                    subject.Close()
                except OSError:
                    require(is_open is None, f"{target.name:s}: Close failed")
                else:
                    require(is_open is not None,
                            f"{target.name:s}: Close of a closed file succeeded")
                    equal(descriptors(is_open), 0, f"{target.name:s}: open files")
                    is_open = None
                continue
            path = {"seed": good, "damaged": bad, "missing": bad + "x"}[operation]
            content = None
            if operation == "seed":
                content = seed
            elif operation == "damaged":
                cut = value % (len(seed) + 1)
                content = seed[:cut] if value % 3 else bytes([value % 256]) * (
                    value % 300)
            if content is not None and is_open != path:
                with open(path, "wb") as file_object:
                    file_object.write(content)
            try:
                subject.Open(path)
            except Exception as exception:  # pylint: disable=broad-except
                # Which exceptions are allowed is subject of P04.
                kept.append(exception)
                failures += 1
                if is_open is None:
                    equal(descriptors(path), 0,
                          f"{target.name:s}: open files after failed Open")
                else:
                    require(isinstance(exception, OSError),
                            f"{target.name:s}: Open of an open file: {exception!r}")
            else:
                require(is_open is None,
                        f"{target.name:s}: Open of an open file succeeded")
                require(operation != "missing", "missing file opened")
                is_open = path
                equal(descriptors(path), 1, f"{target.name:s}: open files after Open")
            if content is not None and is_open != path:
                with open(path, "rb") as file_object:
                    equal(file_object.read(), content, "content of the file")
        if is_open:
            subject.Close()
            equal(descriptors(is_open), 0, f"{target.name:s}: open files at end")
        ctx.note(failures > 0, repr(case), (target.name, operations),
                 labels=[target.name])


SUBTESTS = [
    SubTest("history", HISTORY, check_history, 2500, 50000),
    SubTest("formats", FORMATS, check_formats, 700, 8000),
]
