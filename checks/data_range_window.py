"""P02: data range file-like object."""

import io
import os

import dt
from vf import SubTest, Violation, equal, require, st

from dtformats import data_range

PROPERTY = "P02"
TITLE = "A data range behaves as a file of exactly its bytes and never reads outside"
STATEMENT = (
    "For every file-like object, data offset, data size and history of read, seek, "
    "tell and use of the underlying file by others, a DataRange behaves as a read-only file "
    "that contains exactly the bytes of the range (as far as the underlying file has "
    "them): reads without size, with a negative, zero or too large size stop at the end of the "
    "range, reading never returns bytes outside of the range, the offset moves by the bytes read, "
    "seeking is relative to the range for every whence and may go past its end, and a "
    "negative resulting offset, negative data offset or size or an unknown whence "
    "raises OSError without moving the offset. Ranges on the same file do not disturb each other.")
QUANTIFIER = "every range and every sequence of operations"
WHY = "The tests perform single operations on one range."
FILES = ["dtformats/data_range.py"]
MECHANISM = [("window arithmetic", "data_range.DataRange.read, seek")]
OBSERVE = ["results of read, tell, get_offset, get_size and exceptions"]
TECHNIQUE = "stateful model-based testing against a reference file of the bytes of the range"
RULE = "a history with a read that is clipped by the end of the range or after a seek"
ASSUMPTIONS = []

SIZES = st.one_of(st.none(), st.integers(-3, 70), st.sampled_from([-1, -1, -2, 0, 1, 10**6]))
OPERATION = st.one_of(
    st.tuples(st.just("read"), st.integers(0, 2), SIZES),
    st.tuples(st.just("read"), st.integers(0, 2), SIZES),
    st.tuples(st.just("seek"), st.integers(0, 2), st.tuples(
        st.one_of(st.integers(-70, 90), st.integers(-3, 3)),
        st.sampled_from([0, 0, 1, 1, 2, 2, 3, -1]))),
    st.tuples(st.just("tell"), st.integers(0, 2), st.none()),
    st.tuples(st.just("disturb"), st.integers(0, 2), st.integers(0, 80)))
CASE = st.tuples(
    st.binary(max_size=64),
    st.lists(st.tuples(st.integers(0, 70), st.integers(0, 70)), min_size=1, max_size=3),
    st.lists(OPERATION, max_size=25))


class Model:
    """Reference: the bytes of the range and an offset."""

    def __init__(self, data, offset, size):
        self.data = data[offset:offset + size]
        self.size = size
        self.offset = 0

    def read(self, size):
        if size is None or size < 0:
            result = self.data[self.offset:]
        else:
            result = self.data[self.offset:self.offset + size]
        self.offset += len(result)
        return result

    def seek(self, offset, whence):
        base = {0: 0, 1: self.offset, 2: self.size}.get(whence)
        if base is None or base + offset < 0:
            return False
        self.offset = base + offset
        return True


def check_history(case, ctx):
    data, ranges, operations = case
    file_object = io.BytesIO(data)
    # The default offset and size are 0.
    actual = [data_range.DataRange(file_object, **{
        name: value for name, value in (("data_offset", o), ("data_size", s)) if value})
              for o, s in ranges]
    models = [Model(data, o, s) for o, s in ranges]
    interesting = False
    for number, (operation, which, argument) in enumerate(operations):
        which %= len(actual)
        subject, model = actual[which], models[which]
        what = f"operation {number:d} {operation:s}({argument!r}) of {ranges[which]!r}"
        if operation == "read":
            interesting |= (
                argument is None or argument < 0 or
                model.offset + argument > model.size)
            expected = model.read(argument)
            result = subject.read(size=argument)
            require(isinstance(result, bytes), what)
            equal(result, expected, what)
        elif operation == "seek":
            offset, whence = argument
            if model.seek(offset, whence):
                subject.seek(offset, whence)
                interesting |= model.offset > 0
            else:
                try:
                    subject.seek(offset, whence)
                except OSError:
                    pass
                else:
                    raise Violation(f"{what}: accepted")
        elif operation == "disturb":
            file_object.seek(argument, os.SEEK_SET)
        equal(subject.tell(), model.offset, f"offset after {what}")
        equal(subject.get_offset(), model.offset, f"offset after {what}")
        equal(subject.get_size(), model.size, "size")
    require(actual[0].seekable(), "seekable")
    equal(file_object.getvalue(), data, "underlying file")
    ctx.note(interesting, repr(case), case)


INVALID = st.tuples(
    st.binary(max_size=40), st.integers(-5, 40), st.integers(-5, 40),
    st.integers(0, 10))


def check_invalid(case, ctx):
    data, offset, size, position = case
    subject = data_range.DataRange(
        io.BytesIO(data), data_offset=offset, data_size=size)
    ctx.note(offset < 0 or size < 0, repr(case), case)
    if size < 0:
        try:
            subject.seek(position, os.SEEK_SET)
        except OSError:
            position = 0
        else:
            raise Violation("seek in a range with a negative size accepted")
    else:
        subject.seek(position)
    if offset < 0 or size < 0:
        try:
            subject.read()
        except OSError:
            equal(subject.tell(), position, "offset after failed read")
            return
        raise Violation("range with negative offset or size was read")
    equal(subject.read(), data[offset:offset + size][position:], "read")


dt  # noqa: B018

SUBTESTS = [
    SubTest("history", CASE, check_history, 3000, 60000),
    SubTest("invalid", INVALID, check_invalid, 600, 6000),
]
