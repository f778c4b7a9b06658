"""P23: Windows Task Scheduler job files."""

import struct
import uuid

import dt
from vf import SubTest, equal, st

from dtformats import job

PROPERTY = "P23"
TITLE = "Task Scheduler job files: configuration and triggers are read as stored"
STATEMENT = (
    "For every job file, GetWindowsTaskConfiguration returns the stored identifier, "
    "priority, error retry count and interval, application name, parameters, working "
    "directory, author and comment, and in debug mode every value of the fixed-length "
    "section (with the product version as major.minor), every string with its size, "
    "the user data, the reserved data and every trigger in order are reported as "
    "stored. A file that ends within a section, string, data or trigger is rejected "
    "as a parse error.")
QUANTIFIER = (
    "every field value, string length (including empty strings), amount of user and "
    "reserved data and number of triggers")
WHY = "The tests read one job file without looking at any value."
FILES = ["dtformats/job.py", "dtformats/job.yaml", "dtformats/job.debug.yaml"]
MECHANISM = [
    ("sections", "job.WindowsTaskSchedulerJobFile.ReadFileObject"),
    ("formatters", "job.WindowsTaskSchedulerJobFile._Format*"),
]
OBSERVE = ["GetWindowsTaskConfiguration", "debug output of Open"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "a non-empty string and at least one trigger or user data"
ASSUMPTIONS = []

STRING = st.one_of(st.none(), dt.UNICODE, dt.ASCII)
FIXED = (("product_version", "H"), ("format_version", "H"), ("identifier", "16s"),
         ("application_name_offset", "H"), ("triggers_offset", "H"),
         ("error_retry_count", "H"), ("error_retry_interval", "H"),
         ("idle_deadline", "H"), ("idle_wait", "H"), ("priority", "I"),
         ("maximum_run_time", "I"), ("exit_code", "I"), ("status", "I"),
         ("flags", "I"))
BITS = {"H": 16, "I": 32}
TRIGGER = st.fixed_dictionaries(dict(
    size=dt.u(16), reserved1=dt.u(16), start=st.tuples(dt.u(16), dt.u(16), dt.u(16)),
    end=st.tuples(dt.u(16), dt.u(16), dt.u(16)), time=st.tuples(dt.u(16), dt.u(16)),
    duration=dt.u(32), interval=dt.u(32), flags=dt.u(32), type=dt.u(32),
    words=st.tuples(*[dt.u(16)] * 6)))
FILE = st.fixed_dictionaries(dict(
    fixed=st.fixed_dictionaries({
        name: st.binary(min_size=16, max_size=16) if f == "16s" else dt.u(BITS[f])
        for name, f in FIXED}),
    last_run_time=st.tuples(*[dt.u(16)] * 8), running=dt.u(16),
    strings=st.tuples(*[STRING] * 5), user_data=st.binary(max_size=40),
    reserved_data=st.binary(max_size=40), triggers=dt.many(TRIGGER, max_size=4),
    trailing=st.sampled_from([b"", b"", b"signature"])))


def pack_string(text):
    if text is None:
        return struct.pack("<H", 0)
    data = (text + "\0").encode("utf-16-le")
    return struct.pack("<H", len(data) // 2) + data


def build(case):
    data = b"".join(
        struct.pack("<" + f, case["fixed"][name]) for name, f in FIXED)
    data += struct.pack("<8H", *case["last_run_time"])
    data += struct.pack("<H", case["running"])
    data += b"".join(pack_string(text) for text in case["strings"])
    data += struct.pack("<H", len(case["user_data"])) + case["user_data"]
    data += struct.pack("<H", len(case["reserved_data"])) + case["reserved_data"]
    data += struct.pack("<H", len(case["triggers"]))
    for t in case["triggers"]:
        data += struct.pack(
            "<HH3H3H2HIIII6H", t["size"], t["reserved1"], *t["start"], *t["end"],
            *t["time"], t["duration"], t["interval"], t["flags"], t["type"],
            *t["words"])
    return data


def expected_pairs(case):
    f = case["fixed"]
    t = case["last_run_time"]
    v = f["product_version"]
    pairs = [
        ("Product version", f"0x{v:04x} ({v >> 8:d}.{v & 255:d})"),
        ("Format version", f["format_version"]),
        ("Job identifier", uuid.UUID(bytes_le=f["identifier"])),
        ("Application name offset", dt.hex4(f["application_name_offset"])),
        ("Triggers offset", dt.hex4(f["triggers_offset"])),
        ("Error retry count", f["error_retry_count"]),
        ("Error retry interval", f"{f['error_retry_interval']:d} minutes"),
        ("Idle deadline", f"{f['idle_deadline']:d} minutes"),
        ("Idle wait", f"{f['idle_wait']:d} minutes"),
        ("Priority", dt.hex8(f["priority"])),
        ("Maximum run time", f"{f['maximum_run_time']:d} milliseconds"),
        ("Exit code", dt.hex8(f["exit_code"])), ("Status", dt.hex8(f["status"])),
        ("Flags", dt.hex8(f["flags"])),
        ("Last run time",
         f"{t[0]:04d}-{t[1]:02d}-{t[3]:02d} {t[4]:02d}:{t[5]:02d}:{t[6]:02d}."
         f"{t[7]:03d}"),
        ("Running instance count", case["running"])]
    for label, text in zip(
            ("Application name", "Parameters", "Working directory", "Author",
             "Comment"), case["strings"]):
        size = 0 if text is None else len((text + "\0").encode("utf-16-le"))
        pairs.append((label, f"({size:d} bytes) {text or '':s}"))
    for t in case["triggers"]:
        pairs.extend([
            ("Size", t["size"]), ("Reserved1", dt.hex4(t["reserved1"])),
            ("Start date", "{:04d}-{:02d}-{:02d}".format(*t["start"])),
            ("End date", "{:04d}-{:02d}-{:02d}".format(*t["end"])),
            ("Start time", "{:02d}:{:02d}".format(*t["time"])),
            ("Duration", f"{t['duration']:d} minutes"),
            ("Interval", f"{t['interval']:d} minutes"),
            ("Trigger flags", dt.hex8(t["flags"])),
            ("Trigger type", dt.hex8(t["type"]))])
        pairs.extend(zip(
            ("Trigger arg0", "Trigger arg1", "Trigger arg2", "Trigger padding",
             "Trigger reserved2", "Trigger reserved3"),
            [dt.hex4(w) for w in t["words"]]))
    return pairs


def check_roundtrip(case, ctx):
    data = build(case) + case["trailing"]
    path = ctx.write(data)
    ctx.note(
        any(case["strings"]) and bool(case["triggers"] or case["user_data"]), data, case)
    f = case["fixed"]
    for debug in (False, True):
        parser, text = dt.read_file(job.WindowsTaskSchedulerJobFile, path, debug=debug)
        c = parser.GetWindowsTaskConfiguration()
        equal(
            (c.identifier, c.priority, c.error_retry_count, c.error_retry_interval),
            (str(uuid.UUID(bytes_le=f["identifier"])), f["priority"],
             f["error_retry_count"], f["error_retry_interval"]), "configuration")
        equal(
            [s or "" for s in (c.application_name, c.parameters, c.working_directory,
                               c.author, c.comment)],
            [s or "" for s in case["strings"]], "configuration strings")
    dt.pairs_equal(text, expected_pairs(case))
    dumps = dict(dt.dumps(text))
    equal(dumps.get("User data"), case["user_data"], "user data")
    equal(dumps.get("Reserved data"), case["reserved_data"], "reserved data")
    dt.files_unchanged(path, data)


def check_truncated(value, ctx):
    case, number = value
    data = build(case)
    cut = number % len(data)
    path = ctx.write(data[:cut])
    ctx.note(cut > 68, data[:cut], (cut, len(data)))
    dt.rejected(job.WindowsTaskSchedulerJobFile, path, f"{cut:d} of {len(data):d} bytes")


GENERATORS = {"job": FILE.map(lambda case: build(case) + case["trailing"])}
SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 400, 20000),
    SubTest("truncated", st.tuples(FILE, st.integers(0, 2000)), check_truncated,
            300, 6000),
]
