"""P46: unified_logging.py."""

import json

import dt
import log_support_files
import scripts
import tracev3
import trace_log_entries
from vf import SubTest, Violation, equal, st

from dtformats import unified_logging

PROPERTY = "P46"
TITLE = "unified_logging.py shows every log entry, in order of time, as text or JSON"
STATEMENT = (
    "For every tracev3 file, scripts/unified_logging.py exits with 0 and after its "
    "heading shows every log entry of the file exactly once, in order of the wall "
    "clock time. With --format json what follows the heading is a valid JSON list "
    "whatever characters the messages, format strings, sub systems, categories, "
    "signpost names and image paths contain, with one object per log entry that has "
    "the values of the log entry (of a message of over 1087 characters only the first "
    "1087, followed by <\u2026>); the parent activity of a log entry without one is "
    "the creator of its activity shown before it. The text format has one line per log "
    "entry with the time, thread, type, activity, process and time to live followed by "
    "the process, sender, sub system, category and message. For a shared-cache strings "
    "(dsc) file it shows every UUID and range with its index, identifier, address "
    "range, size and path.")
QUANTIFIER = (
    "every catalog, sequence of tracepoints, text of messages and paths, and dsc file")
WHY = "The scripts have no tests."
FILES = ["scripts/unified_logging.py", "dtformats/unified_logging.py"]
MECHANISM = [
    ("order", "scripts/unified_logging.py LogEntriesHeap, LogEntry.__lt__"),
    ("output", "scripts/unified_logging.py Main"),
]
OBSERVE = ["standard output and exit status of scripts/unified_logging.py"]
TECHNIQUE = (
    "property-based testing of the tool's output against the log entries of the "
    "generated file")
RULE = "two or more log entries from tracepoints or chunks, or two ranges"
ASSUMPTIONS = [
    "the values of the log entries themselves are the subject of P37",
    "messages of 1085 to 1087 characters are not compared",
    "log entries with the same time are shown in any order",
]
GENERATORS = {}

HEADING = "Apple Unified Logging and Activity Tracing information:\n"
COLUMNS = ("Timestamp                       Thread     Type        Activity"
           "             PID    TTL\n")


def date_time(timestamp):
    seconds, nanoseconds = divmod(timestamp, 1000000000)
    days, seconds = divmod(seconds, 86400)
    year, month, day = dt.civil(days)
    return (
        f"{year:04d}-{month:02d}-{day:02d} {seconds // 3600:02d}:"
        f"{seconds // 60 % 60:02d}:{seconds % 60:02d}."
        f"{nanoseconds // 1000:06d}+0000")


def identifier(value):
    return str(value).upper() if value else ""


def entry_object(e, parents):
    """Returns the JSON object of a log entry and updates the activities."""
    event = e.event_type or ""
    activity = e.activity_identifier or 0
    format_string = e.format_string or ""
    if event in ("activityCreateEvent", "userActionEvent"):
        format_string = ""
    result = {
        "activityIdentifier": activity, "bootUUID": str(e.boot_identifier).upper(),
        "category": e.category or "", "eventMessage": (e.event_message or "").rstrip(),
        "eventType": event, "formatString": format_string,
        "machTimestamp": e.mach_timestamp, "parentActivityIdentifier": 0,
        "processID": e.process_identifier or 0,
        "processImagePath": e.process_image_path or "",
        "processImageUUID": identifier(e.process_image_identifier),
        "senderImagePath": e.sender_image_path or "",
        "senderImageUUID": identifier(e.sender_image_identifier),
        "senderProgramCounter": e.sender_program_counter or 0,
        "subsystem": e.sub_system or "", "threadID": e.thread_identifier or 0,
        "timestamp": date_time(e.timestamp), "timezoneName": "",
        "traceID": e.trace_identifier}
    if event == "timesyncEvent":
        return result
    if event not in ("activityCreateEvent", "lossEvent", "userActionEvent"):
        result["source"] = None
    if event not in ("activityCreateEvent", "lossEvent", "signpostEvent",
                     "userActionEvent"):
        result["messageType"] = e.message_type or ""
    if e.loss_count is not None:
        result.update(
            lossCount=e.loss_count, lossCountSaturated=True,
            lossEndMachContinuousTimestamp=e.loss_end_mach_timestamp)
    if e.signpost_identifier is not None:
        result.update(
            signpostID=e.signpost_identifier, signpostScope=e.signpost_scope or "",
            signpostType=e.signpost_type or "")
    if e.backtrace_frames:
        result["backtrace"] = {"frames": [
            {"imageOffset": f.image_offset, "imageUUID": str(f.image_identifier).upper()}
            for f in e.backtrace_frames]}
    if e.creator_activity_identifier is not None:
        parents[activity] = e.creator_activity_identifier & 0x7FFFFFFFFFFFFFFF
        result["creatorActivityID"] = e.creator_activity_identifier
    elif e.loss_count is not None:
        result.update(
            lossStartMachContinuousTimestamp=e.loss_start_mach_timestamp,
            lossStartTimestamp=date_time(e.loss_start_timestamp),
            lossEndTimestamp=date_time(e.loss_end_timestamp))
    elif e.signpost_identifier is not None:
        result["signpostName"] = e.signpost_name or ""
    parent = e.parent_activity_identifier or parents.get(activity) or 0
    if parent == e.creator_activity_identifier:
        parent = 0
    result["parentActivityIdentifier"] = parent
    return result


def entry_text(e):
    parts = []
    if e.process_image_path:
        parts.append(e.process_image_path.split("/")[-1] + ":")
    if e.sender_image_path:
        parts.append("(" + e.sender_image_path.split("/")[-1] + ")")
    if e.sub_system and e.category:
        parts.append(f"[{e.sub_system:s}:{e.category:s}]")
    parts.append(e.event_message or "")
    return (
        f"{date_time(e.timestamp):s}\t0x{e.thread_identifier or 0:<8x}\t"
        f"{e.event_type:11s}\t0x{e.activity_identifier or 0:<18x}\t"
        f"{e.process_identifier or 0:<6d}\t{e.ttl or 0:<4d}\t{' '.join(parts):s}\n")


def unique(pairs):
    keys = [key for key, _ in pairs]
    if len(set(keys)) != len(keys):
        raise Violation(f"JSON object with repeated names: {keys!r}")
    return dict(pairs)


def read_entries(path):
    trace_file = unified_logging.TraceV3File()
    trace_file.Open(path)
    try:
        return list(trace_file.ReadLogEntries())
    finally:
        trace_file.Close()


LIMIT = (-62135596800 * 10**9, 253402300799 * 10**9)


def check_json(text, entries):
    try:
        shown = json.loads(text, object_pairs_hook=unique)
    except ValueError as exception:
        raise Violation(f"not JSON: {exception!s}: {text[:300]!r}") from exception
    if not entries:
        equal(shown, [{}], "JSON")
        return
    equal(len(shown), len(entries), "number of log entries")
    left = sorted(entries, key=lambda e: e.timestamp)
    parents = {}
    for index, actual in enumerate(shown):
        same = [e for e in left if e.timestamp == left[0].timestamp]
        for e in same:
            state = dict(parents)
            if entry_object(e, state) == actual:
                parents = state
                left.remove(e)
                break
        else:
            equal(actual, entry_object(same[0], dict(parents)),
                  f"log entry {index:d} of {len(entries):d}")
            raise Violation("unexpected log entry")


def check_trace(model, ctx):
    with ctx.directory() as root:
        path = trace_log_entries.write_files(model, root)
        entries = read_entries(path)
        for e in entries:
            for value in (e.timestamp, e.loss_start_timestamp, e.loss_end_timestamp):
                if value is not None and not LIMIT[0] <= value <= LIMIT[1]:
                    return
        ctx.note(len(model["entries"]) >= 2, key=model["body"].hex(),
                 sample=[e.event_message for e in entries][:5],
                 labels=[f"event:{e.event_type}" for e in entries])
        result = scripts.run("unified_logging", "--format", "json", path)
        equal(result.status, 0, "exit status")
        equal(result.text[:len(HEADING)], HEADING, "heading")
        check_json(result.text[len(HEADING):], entries)

        result = scripts.run("unified_logging", path)
        equal(result.status, 0, "exit status")
        head = HEADING + COLUMNS
        equal(result.text[:len(head)], head, "heading")
        entries.sort(key=lambda e: e.timestamp)
        expected = "".join(entry_text(e) for e in entries)
        if len({e.timestamp for e in entries}) == len(entries):
            equal(result.text[len(head):], expected, "text")
        else:
            equal(sorted(result.text[len(head):].split("\n")),
                  sorted(expected.split("\n")), "lines of text")


def check_dsc(model, ctx):
    _, uuids, _, _, _ = model
    data, ranges, _ = log_support_files.dsc_data(model)
    path = ctx.write(data, "dsc")
    ctx.note(len(ranges) >= 2, key=data, sample=ranges)
    result = scripts.run("unified_logging", path)
    equal(result.status, 0, "exit status")
    expected = [HEADING]
    for index, (offset, size, image, image_path) in enumerate(uuids):
        expected.append(
            f"uuid {index:d}:\n    uuid {index:d}:\t{str(image).upper():s}\n"
            f"    dsc text:\t0x{offset:08x} .. 0x{offset + size:08x} ({size:d})\n"
            f"    path:\t{image_path:s}\n\n")
    for index, (start, size, _, number) in enumerate(ranges):
        expected.append(
            f"Range {index:d}:\n    uuid {number:d}:\t{str(uuids[number][2]).upper():s}\n"
            f"    dsc range:\t0x{start:08x} .. 0x{start + size:08x} ({size:d})\n"
            f"    path:\t{uuids[number][3]:s}\n\n")
    equal(result.text, "".join(expected), "output")


MESSAGE = st.builds(
    lambda unit, size: (unit * size)[:size - 1] + "!", st.sampled_from(
        ["abcdefghij", "\u00e9\"x", "<", "\n\\"]),
    st.one_of(st.integers(1, 1084), st.integers(1088, 3000),
              st.sampled_from([1084, 1088, 1089, 5000])))


def check_long(messages, ctx):
    path = ctx.write(tracev3.message_file(messages), "long.tracev3")
    ctx.note(len(messages) > 1 and any(len(m) > 1087 for m in messages), key=str(messages),
             sample=[len(message) for message in messages])
    result = scripts.run("unified_logging", "--format", "json", path)
    equal(result.status, 0, "exit status")
    try:
        shown = json.loads(result.text[len(HEADING):])
    except ValueError as exception:
        raise Violation(f"not JSON: {exception!s}") from exception
    equal([entry["eventMessage"] for entry in shown], [
        message if len(message) < 1085 else message[:1087] + "<\u2026>"
        for message in messages], "messages as JSON")
    result = scripts.run("unified_logging", path)
    equal(result.status, 0, "exit status")
    position = 0
    for message in messages:
        found = result.text.find(f"\t{message:s}\n", position)
        if found < 0:
            raise Violation(f"message of {len(message):d} characters is not in the text")
        position = found + len(message)


SUBTESTS = [
    SubTest("long", st.lists(MESSAGE, min_size=1, max_size=4), check_long, 40, 1000),
    SubTest("trace", trace_log_entries.MODEL, check_trace, 150, 6000),
    SubTest("dsc", log_support_files.dsc_model(), check_dsc, 80, 3000),
]
