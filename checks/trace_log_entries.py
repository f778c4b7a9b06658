"""P37: Apple Unified Logging tracev3 files."""

import fractions
import os
import random
import re
import struct
import uuid

import dt
import tracev3
from vf import SubTest, Violation, equal, require, st

from dtformats import file_system
from dtformats import unified_logging

PROPERTY = "P37"
TITLE = "Unified logging: tracev3 files give every log entry they store"
STATEMENT = (
    "For every tracev3 file, in a system directory, in a logarchive or by itself, "
    "ReadLogEntries of TraceV3File gives, in the order stored, one log entry for the boot and "
    "for each wall clock adjustment of the timesync database, and one for every tracepoint "
    "(activity, trace, log, signpost and loss), StateDump and SimpleDump chunk, in compressed "
    "and uncompressed chunk sets; unused tracepoints and other chunks give none. "
    "The format string and sender image are those of the string the tracepoint refers to: in "
    "the uuidtext file of the process, of the image at the load address or of the stored "
    "identifier, or in the shared-cache strings (dsc) file of the process, with "
    "large offsets taken into account. The message consists of the format string with the "
    "values of the data items, taken from the tracepoint, from the private data or from the "
    "oversize chunk of the same process; values that are not available are shown as "
    "<private>, or missing data. Process, sub system, category, activity, signpost, "
    "trace identifier, program counter and backtrace are the stored "
    "ones, and the timestamp is the wall clock time according to the last timesync record "
    "at or before the continuous time, else the boot record, else the file header. "
    "Reading the log entries again, and reading them in debug mode, gives the same log "
    "entries, and closing the file closes every file that was opened for it. Damaged files give parse errors: other chunk tags, record and log types, data "
    "item types, indexes out of bounds, sizes that do not fit, a process that is not in the "
    "catalog or is in it more than once.")
QUANTIFIER = ("every catalog, sequence of chunks and tracepoints, combination of tracepoint "
              "flags, set of string files and timesync records")
WHY = ("The tests read one tracev3 file and check the number of log entries and values of "
       "a few of them.")
FILES = ["dtformats/unified_logging.py", "dtformats/aul_tracev3.yaml"]
MECHANISM = [
    ("chunks", "TraceV3File.ReadLogEntries, _ReadChunkSet, _ReadCatalog"),
    ("tracepoints", "TraceV3File._ReadFirehoseChunkData and the data it reads"),
    ("strings", "TraceV3File._GetImageValues, _GetUUIDTextFile, _GetDSCFile"),
    ("time", "TraceV3File._GetTimestamp, _ReadTimesyncRecords"),
]
OBSERVE = ["log entries", "debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more log entries from tracepoints or chunks"
ASSUMPTIONS = [
    "format string operators are limited to those for which the message is beyond "
    "dispute; the formatting of values is the subject of P35",
    "timestamps are compared with the precision of a floating-point timebase"]

ATTRIBUTES = [
    "activity_identifier", "boot_identifier", "category", "creator_activity_identifier",
    "event_message", "event_type", "format_string", "loss_count", "loss_end_mach_timestamp",
    "loss_start_mach_timestamp", "mach_timestamp", "message_type",
    "parent_activity_identifier", "process_identifier", "process_image_identifier",
    "process_image_path", "sender_image_identifier", "sender_image_path",
    "sender_program_counter", "signpost_identifier", "signpost_name", "signpost_scope",
    "signpost_type", "sub_system", "thread_identifier", "trace_identifier", "ttl"]


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as file_object:
        file_object.write(data)


def write_files(model, root):
    layout = model["layout"]
    if layout == "system":
        trace = os.path.join(root, "diagnostics", "Persist", "0000000000000001.tracev3")
        text = os.path.join(root, "uuidtext")
        os.makedirs(text)
        timesync = os.path.join(root, *model["timesync_path"], "timesync")
    elif layout == "bare":
        trace, text, timesync = os.path.join(root, "some", "path", "x.tracev3"), None, None
    else:
        text = os.path.join(root, "system_logs.LOGARCHIVE" if layout == "live" else
                            "system_logs.logarchive")
        os.makedirs(os.path.join(text, "dsc"))
        timesync = os.path.join(text, "timesync")
        trace = os.path.join(text, "logdata.LiveData.tracev3")
        if layout == "archive":
            trace = os.path.join(text, "Persist", "0000000000000001.tracev3")
    write(trace, tracev3.header_data(model) + model["body"])
    for identifier, stored in model["strings"].uuidtext.items():
        name = identifier.hex.upper()
        write(os.path.join(text, name[:2], name[2:]), tracev3.uuidtext_data(*stored))
    for identifier, stored in model["strings"].dsc.items():
        write(os.path.join(text, "dsc", identifier.hex.upper()), tracev3.dsc_data(*stored))
    if model["timesync"]:
        for name, data in tracev3.timesync_files(model).items():
            write(os.path.join(timesync, name), data)
    return trace


def timestamp(model, time):
    """Returns the timestamp as a fraction and the precision of it."""
    timesync = model["timesync"]
    if timesync:
        timebase = fractions.Fraction(timesync["numerator"], timesync["denominator"])
        base, start = timesync["timestamp"], 0
        for kernel_time, stamp in sorted(timesync["records"]):
            if kernel_time <= time:
                base, start = stamp, kernel_time
    else:
        header = model["header"]
        timebase = fractions.Fraction(header["numerator"], header["denominator"])
        base, start = header["timestamp"] * 1000000000, 0
    delta = (time - start) * timebase
    return base + delta, 1 + abs(delta) / 2 ** 50


def check_timestamp(model, actual, time, what):
    require(isinstance(actual, int), f"{what} is {actual!r}")
    expected, precision = timestamp(model, time)
    require(abs(actual - expected) <= precision, f"{what} {actual} instead of {float(expected)}")


def expected_entries(model):
    result = []
    timesync = model["timesync"]
    boot = model["common"]["boot"]
    if timesync:
        result.append(dict(
            boot_identifier=boot, event_type="timesyncEvent", mach_timestamp=0, exact=timesync[
                "timestamp"], event_message=f"=== system boot: {str(boot).upper()}",
            thread_identifier=0, trace_identifier=0))
        for kernel_time, stamp in timesync["records"]:
            result.append(dict(
                boot_identifier=boot, event_type="timesyncEvent", mach_timestamp=kernel_time,
                event_message="=== system wallclock time adjusted", thread_identifier=0,
                trace_identifier=0, parent_activity_identifier=0, exact=stamp))
    return result + model["entries"]


def check_entry(model, actual, expected, index):
    for name in ATTRIBUTES:
        equal(getattr(actual, name), expected.get(name), f"{name} of log entry {index}")
    if "exact" in expected:
        equal(actual.timestamp, expected["exact"], f"timestamp of log entry {index}")
    else:
        check_timestamp(model, actual.timestamp, expected["time"],
                        f"timestamp of log entry {index}")
    if "loss_start" in expected:
        for name in ("start", "end"):
            check_timestamp(model, getattr(actual, f"loss_{name}_timestamp"),
                            expected[f"loss_{name}"], f"loss {name} of log entry {index}")
    frames = [(frame.image_identifier, frame.image_offset)
              for frame in actual.backtrace_frames or []]
    equal(frames, expected.get("frames", []), f"backtrace frames of log entry {index}")


def check_entries(model, actual, what):
    expected = expected_entries(model)
    for index, (first, second) in enumerate(zip(actual, expected)):
        check_entry(model, first, second, f"{index} ({what})")
    equal(len(actual), len(expected), f"number of log entries ({what})")


MODEL = st.builds(
    lambda model, path, debug: dict(model, timesync_path=path, debug_mode=debug),
    tracev3.archive(), st.sampled_from([[], ["diagnostics"]]), st.booleans())


class Files(file_system.NativeFileSystemHelper):
    """Keeps the files that were opened."""

    def __init__(self):
        super().__init__()
        self.opened = []

    def OpenFileByPath(self, path):
        file_object = super().OpenFileByPath(path)
        self.opened.append((path, file_object))
        return file_object


def check_archive(model, ctx):
    with ctx.directory() as root:
        check_root(model, ctx, root)


def check_root(model, ctx, root):
    path = write_files(model, root)
    ctx.note(len(model["entries"]) >= 2, key=model["body"].hex(),
             sample=f"{model['layout']} {[e['event_message'] for e in model['entries']]!r}",
             labels=[f"layout:{model['layout']}", f"timesync:{bool(model['timesync'])}"] + [
                 f"event:{entry['event_type']}" for entry in model["entries"]])
    recorder, files = dt.Recorder(), Files()
    trace_file = unified_logging.TraceV3File(
        debug=model["debug_mode"], output_writer=recorder,
                                            file_system_helper=files)
    for attempt in range(2):
        trace_file.Open(path)
        try:
            check_entries(model, list(trace_file.ReadLogEntries()), f"open {attempt}")
            if not attempt:
                check_debug(model, recorder)
            check_entries(model, list(trace_file.ReadLogEntries()), f"again, open {attempt}")
        finally:
            trace_file.Close()
        equal([os.path.basename(name) for name, file_object in files.opened
               if file_object and not file_object.closed], [], "files left open by Close")
    equal(bool(recorder.parts), model["debug_mode"], "debug output")


def check_debug(model, recorder):
    if not model["debug_mode"]:
        return
    # Every continuous time is shown with the timestamp and date and time it stands for.
    shown = []
    for description, time, stamp, text in re.findall(
            r"\n([^\n]+?)\s*: (\d+)\nTimestamp\s*: (-?\d+)\nDate time\s*: ([^\n]*)\n",
            recorder.text):
        check_timestamp(model, int(stamp), int(time), f"{description} timestamp")
        if int(stamp) == 0:
            expected = "Not set (0)"
        elif abs(int(stamp)) < 253402300800 * 10 ** 9:
            expected = dt.posix_ns(int(stamp))
        else:
            continue
        equal(text, expected, f"date and time of {description.lower()} {time}")
        if description == "Continuous time":
            shown.append(int(time))
    equal(shown, [time for entry in model["entries"] for time in [entry["time"]] + [
        entry[name] for name in ("loss_end", "loss_start") if name in entry]],
          "continuous times in the debug output")
    equal([int(value) for value in re.findall(
        r"\nTrace identifier\s*: (\d+)\n", recorder.text)],
          [entry["trace_identifier"] for entry in model["entries"] if entry[
              "trace_identifier"]], "trace identifiers in the debug output")
    labels = {label for label, _ in model["debug"]} - {
        "Thread identifier", "Message string", "Title"}
    header = tracev3.header_lines(model)
    labels |= {label for label, _ in header}
    dt.pairs_equal(recorder.text, [pair for pair in header + model["debug"]
                                   if pair[0] in labels], labels=labels)
    for number, lines in re.findall(
            r"\nLog type[^\n]*\nFlags\s*: 0x([0-9a-f]{4})\n((?:\t[^\n]*\n)*)", recorder.text):
        equal(sorted(lines.splitlines()), sorted(tracev3.flag_lines(int(number, 16))),
              f"description of tracepoint flags 0x{number}")


FAULTS = [
    "none", "header flags", "header denominator", "timesync denominator", "chunk tag",
    "chunk size", "start marker", "end marker", "uncompressed size", "compressed data",
    "sub chunk size", "record type", "log type", "activity type", "trace type", "loss type",
    "signpost type", "item type", "main index", "dsc index", "image index", "same process",
    "firehose process", "simple process", "state process", "backtrace index", "strings type",
    "no strings identifier", "truncated"]
LOG = [0, 1, 2, 0x10, 0x11]


@st.composite
def fault_model(draw):
    fault = draw(st.sampled_from(FAULTS))
    model = dict(
        fault=fault, choice=draw(dt.u(16)), identifiers=draw(st.lists(
            st.uuids(), min_size=1, max_size=3)), compressed=draw(st.booleans()),
        debug_mode=draw(st.booleans()), kind=draw(st.sampled_from(["log", "loss", "unused"])),
        process=draw(tracev3.process(5, 0)), other=draw(st.integers(1, 0xFFFF)))
    return model


def other_value(allowed, choice, size=256):
    return [value for value in range(size) if value not in allowed][choice % (
        size - len(allowed))]


def fault_data(model):
    """Returns the data of a small file with one fault."""
    fault, choice = model["fault"], model["choice"]
    identifiers = model["identifiers"]
    count = len(identifiers)
    p = dict(model["process"], main=0, dsc=count - 1, images=[(0x1000, 0x1000, 0)],
             subsystems=[])
    beyond = count + choice % 500
    if fault == "main index":
        p["main"] = beyond
    elif fault == "dsc index":
        p["dsc"] = beyond
    elif fault == "image index":
        p["images"] = [(0x1000, 0x1000, beyond)]
    elif fault == "no strings identifier":
        p["main"], p["dsc"] = -1, -1
    processes = [p] + ([dict(p, pid=7)] if fault == "same process" else [])
    body = tracev3.align(tracev3.chunk(0x600B, tracev3.catalog_data(
        (["x"], processes, [], 0), identifiers), 17))

    def point(record_type, log_type, flags, data):
        return tracev3.align(struct.pack("<BBHIQIHH", record_type, log_type, flags, 1, 2, 3, 0,
                                         len(data)) + data)

    plain = struct.pack("<IBB", 5, 0, 0)
    points = {"log": point(4, 0, 2, plain), "loss": point(7, 0, 0, bytes(24)),
              "unused": point(0, 0, 0, b"")}[model["kind"]]
    if fault == "record type":
        points += point(other_value([0, 2, 3, 4, 6, 7], choice), 0, 2, plain)
    elif fault == "log type":
        points += point(4, other_value(LOG, choice), 2, plain)
    elif fault == "activity type":
        points += point(2, other_value([1, 3], choice), 2, bytes(40))
    elif fault == "trace type":
        points += point(3, other_value([0], choice), 2, bytes(5))
    elif fault == "loss type":
        points += point(7, other_value([0], choice), 0, bytes(24))
    elif fault == "signpost type":
        allowed = [scope << 4 | kind for scope in (4, 8, 12) for kind in range(3)]
        points += point(6, other_value(allowed, choice), 2, bytes(16))
    elif fault == "item type":
        known = [0x00, 0x01, 0x02, 0x10, 0x12, 0x20, 0x21, 0x22, 0x25, 0x30, 0x31, 0x32, 0x35,
                 0x40, 0x41, 0x42, 0x45, 0x72, 0xF2]
        points += point(4, 0, 2, struct.pack("<IBBBBI", 5, 0, 1, other_value(known, choice), 4,
                                             0))
    elif fault == "image index":
        points += point(4, 0, 8, struct.pack("<IHBB", 0x1000, 0, 0, 0))
    elif fault == "strings type":
        points += point(4, 0, (0, 6, 14)[choice % 3], struct.pack("<IBB", 5, 0, 0))
    elif fault == "no strings identifier":
        points += point(4, 0, (2, 4)[choice % 2], plain)
    elif fault == "backtrace index":
        backtrace = struct.pack("<HBBBB", 1, 0x12, 1, 1, 0) + bytes(20)
        points += point(4, 0, 0x1002, plain + backtrace + bytes([1 + choice % 254]))

    def header(name):
        values = dict(p, upper=p["upper"] ^ model["other"]) if fault == name else p
        return values

    chunks = [tracev3.chunk(0x6001, tracev3.common_header(
        header("firehose process"), 0, struct.pack(
            "<BHHHHBBQ", 0, 0, len(points) + 16, 4096, 0, 0, 0, 9)) + points)]
    if fault == "simple process":
        chunks.append(tracev3.chunk(0x6004, tracev3.common_header(
            header(fault), 0, struct.pack("<BHQQQ", 0, 0, 1, 2, 3)) + bytes(32) + struct.pack(
                "<III", 0, 1, 1) + bytes(2)))
    elif fault == "state process":
        chunks.append(tracev3.chunk(0x6003, tracev3.common_header(
            header(fault), 0, struct.pack("<BHQQ", 0, 0, 1, 2)) + bytes(16) + struct.pack(
                "<II", 1, 0) + bytes(192)))
    elif fault == "sub chunk size":
        data = bytes(choice % 20)
        chunks.append(tracev3.chunk(0x6077, data, size=len(data) + model["other"]))
    content = b"".join(tracev3.align(data) for data in chunks[:-1]) + chunks[-1]
    if model["compressed"] or fault == "compressed data":
        data = tracev3.lz4_data(content)
    else:
        data = b"bv4-" + struct.pack("<I", len(content)) + content + b"bv4$"
    if fault == "start marker":
        data = b"bv4" + bytes([other_value(b"1-", choice)]) + data[4:]
    elif fault == "end marker":
        data = data[:-1] + bytes([other_value(b"$", choice)])
    elif fault == "uncompressed size":
        size = len(content) + (model["other"] if choice % 2 else -1 - choice % len(content))
        data = data[:4] + struct.pack("<I", size) + data[8:]
    elif fault == "compressed data":
        data = data[:12] + b"\xf0" + b"\xff" * (len(data) - 17) + data[-4:]
    tag = other_value([0x600B, 0x600D], choice, 0x10000) if fault == "chunk tag" else 0x600D
    size = len(data) + (model["other"] if fault == "chunk size" else 0)
    last = tracev3.chunk(tag, data, size=size)
    if fault == "truncated":
        last = last[:1 + choice % (len(last) - 1)]
    return body + last


def check_fault(model, ctx):
    fault = model["fault"]
    files = dict(
        header=dict(numerator=1, denominator=int(fault != "header denominator"), start=0,
                    timestamp=0, zone=0, dst=0, flags=(
                        model["choice"] & 0xFFFE if fault == "header flags" else 1),
                    continuous=0, build="", model="", pid=0, status=0, path=""),
        common=dict(boot=model["identifiers"][0]), body=fault_data(model),
        strings=tracev3.Strings(), timesync=None, layout="bare")
    if fault == "timesync denominator":
        files.update(layout="archive", timesync=dict(
            numerator=1, denominator=0, timestamp=0, records=[], before=[], after=[],
            split=False))
    ctx.note(fault != "none", key=repr(model), sample=fault, labels=[f"fault:{fault}"])
    with ctx.directory() as root:
        path = write_files(files, root)
        trace_file = unified_logging.TraceV3File(
            debug=model["debug_mode"], output_writer=dt.Recorder())
        entries = []
        try:
            trace_file.Open(path)
            try:
                entries = list(trace_file.ReadLogEntries())
            finally:
                trace_file.Close()
        except dt.errors.ParseError:
            require(fault != "none", "parse error for a file without a fault")
            return
        if fault != "none":
            raise Violation(f"no parse error for: {fault}")
        equal(len(entries), int(model["kind"] != "unused"), "number of log entries")


MANY = st.builds(
    lambda seed, count, number, dsc: dict(seed=seed, count=count, number=number, dsc=dsc),
    dt.u(32),
    st.one_of(st.integers(2, 150), st.integers(60, 70)), st.integers(50, 250),
    st.sampled_from([0, 0, 1, 2]))


def check_many(model, ctx):
    """More string files than are kept open, used in any order."""
    rng = random.Random(model["seed"])
    count = model["count"]
    identifiers = [uuid.UUID(int=rng.getrandbits(128)) for _ in range(count)]
    shared = [model["dsc"] == 2 or model["dsc"] == 1 and rng.random() < 0.5
              for _ in range(count)]
    strings = tracev3.Strings()
    processes = []
    for index, identifier in enumerate(identifiers):
        path = f"/usr/{index:d}"
        formats = [[f"{index:d} first"], [f"{index:d} second"]]
        if shared[index]:
            strings.dsc[identifier] = ([(16, formats, 0)], [(5, 100, identifier, path)])
        else:
            strings.uuidtext[identifier] = ([(16, formats)], path)
        processes.append(dict(
            main=-1 if shared[index] else index, dsc=index if shared[index] else -1,
            upper=7, lower=index, pid=index + 1, euid=0, images=[], subsystems=[]))
    body = tracev3.align(tracev3.chunk(0x600B, tracev3.catalog_data(
        (["x"], processes, [], 0), identifiers), 17))
    content, expected = b"", []
    for number in range(model["number"]):
        index = number % count if rng.random() < 0.3 else rng.randrange(count)
        second = rng.random() < 0.5
        reference = 16 + (len(f"{index:d} first") + 1 if second else 0)
        point = struct.pack("<IBB", 50, 0, 0)
        point = tracev3.align(struct.pack(
            "<BBHIQIHH", 4, 0, 4 if shared[index] else 2, reference, 1, number, 0,
            len(point)) + point)
        content = tracev3.align(content) + tracev3.chunk(0x6001, tracev3.common_header(
            processes[index], 0, struct.pack(
                "<BHHHHBBQ", 0, 0, len(point) + 16, 4096, 0, 0, 0, 0)) + point)
        path = f"/usr/{index:d}"
        expected.append((
            number, index + 1, f"{index:d} {'second' if second else 'first'}",
            identifiers[index], path, None if shared[index] else path,
            45 if shared[index] else 50))
    data = b"bv4-" + struct.pack("<I", len(content)) + content + b"bv4$"
    ctx.note(count > 64, key=repr(model), sample=f"{count} string files",
             labels=["many files" if count > 64 else "few files"])
    files = dict(
        header=dict(numerator=1, denominator=1, start=0, timestamp=0, zone=0, dst=0, flags=1,
                    continuous=0, build="", model="", pid=0, status=0, path=""),
        common=dict(boot=identifiers[0]), body=body + tracev3.chunk(0x600D, data),
        strings=strings, timesync=None, layout="archive")
    helper = Files()
    with ctx.directory() as root:
        path = write_files(files, root)
        trace_file = unified_logging.TraceV3File(file_system_helper=helper)
        trace_file.Open(path)
        try:
            for attempt in range(2):
                equal([(entry.mach_timestamp, entry.process_identifier, entry.event_message,
                        entry.sender_image_identifier, entry.sender_image_path,
                        entry.process_image_path, entry.sender_program_counter)
                       for entry in trace_file.ReadLogEntries()], expected,
                      f"log entries (read {attempt})")
        finally:
            trace_file.Close()
    equal([os.path.basename(name) for name, file_object in helper.opened
           if file_object and not file_object.closed], [], "files left open by Close")


GENERATORS = {"aul_tracev3": tracev3.archive().map(
    lambda model: tracev3.header_data(model) + model["body"])}

SUBTESTS = [
    SubTest("archive", MODEL, check_archive, quick=400, thorough=8000),
    SubTest("many files", MANY, check_many, quick=16, thorough=300),
    SubTest("faults", fault_model(), check_fault, quick=250, thorough=5000),
]
