"""P44: tools that list the records of a file."""

import uuid

import dt
import indexeddb_files
import job_file
import keychain_file
import leveldb_files
import recycle_metadata
import restore_point
import scripts
import usn_records
from vf import SubTest, equal, st

PROPERTY = "P44"
TITLE = "The listing tools print every record of the file, in order, with its values"
STATEMENT = (
    "For every valid file the scripts exit with 0 and print, in the order of the file: "
    "usn_journal.py a line per USN record with time, name, file reference and parent "
    "reference (MFT entry and sequence number); rp_change_log.py the volume path and "
    "per entry the names of the type and flag bits that are set, the sequence number and "
    "process name; recycle_bin.py the version, deletion time, original name and size; "
    "job.py the identifier, application name, parameters, author and comment, empty if "
    "not set; leveldb.py for a table and indexeddb.py a line per entry with key, "
    "sequence number, type and value; and keychain.py per table the name and identifier "
    "and, without --content, the number, identifier, name and type of every column or, "
    "with it, the column names and the values of every record, NULL for no value.")
QUANTIFIER = "every file of these formats: all records, values and flags"
WHY = "The scripts have no tests."
FILES = ["scripts/usn_journal.py", "scripts/rp_change_log.py", "scripts/recycle_bin.py",
         "scripts/job.py", "scripts/leveldb.py", "scripts/indexeddb.py",
         "scripts/keychain.py"]
MECHANISM = [("output", "Main of each of these scripts")]
OBSERVE = ["standard output and exit status of the scripts"]
TECHNIQUE = (
    "property-based testing of the tools' output against the values the file was "
    "generated from")
RULE = "two or more records, or for a single record a value that is not ASCII"
ASSUMPTIONS = [
    "the comma separated values of usn_journal.py are not quoted",
    "the values of the schema attributes table of a keychain are not compared"]
GENERATORS = {}


def reference(value):
    return f"{value & 0xFFFFFFFFFFFF:d}-{value >> 48:d}"


def run(ctx, expected, name, *arguments):
    result = scripts.run(name, *arguments)
    equal(result.status, 0, f"exit status of {name:s}.py")
    equal(result.text, expected, f"output of {name:s}.py")


def check_usn(case, ctx):
    data, records = usn_records.build(case)
    if not data:
        return
    ctx.note(len(records) > 1, data, [r["name"] for r, _ in records][:4])
    lines = ["USN journal records information:",
             "Date and time,Name,File reference,Parent file reference"]
    for r, _ in records:
        lines.append(",".join([
            dt.filetime(r["timestamp"]), r["name"], reference(r["file_reference"]),
            reference(r["parent_file_reference"])]))
    run(ctx, "".join(line + "\n" for line in lines), "usn_journal", ctx.write(data))


def check_change_log(m, ctx):
    data, _, _, _ = restore_point.build(m)
    ctx.note(len(m["entries"]) > 1, data, m)
    text = ("Windows Restore Point change.log information:\n"
            f"Volume path:\t{m['volume']:s}\n\n")
    for e in m["entries"]:
        types = [f"CHANGE_LOG_ENTRYTYPES_{n}" for bit, n in restore_point.TYPES.items()
                 if e["entry_type"] & bit]
        flags = [f"CHANGE_LOG_ENTRYFLAGS_{n}" for bit, n in restore_point.FLAGS.items()
                 if e["entry_flags"] & bit]
        text += (
            f"Entry type:\t\t{', '.join(types)}\nEntry flags:\t\t{', '.join(flags)}\n"
            f"Sequence number:\t{e['sequence']:d}\nProcess name:\t\t{e['name']:s}\n\n")
    run(ctx, text, "rp_change_log", ctx.write(data))


def check_recycle_bin(m, ctx):
    data = recycle_metadata.build_bin(m)
    ctx.note(not m["name"].isascii(), data, m)
    time = dt.filetime(m["time"]).partition(" (")[0]
    run(ctx, (
        "Recycle.Bin metadata ($I) file information:\n"
        f"\tFormat version\t\t: {m['version']:d}\n\tDeletion time\t\t: {time:s}\n"
        f"\tOriginal filename\t: {m['name']:s}\n"
        f"\tOriginal file size\t: {m['size']:d}\n\n"), "recycle_bin", ctx.write(data))


def check_job(case, ctx):
    data = job_file.build(case) + case["trailing"]
    name, parameters, _, author, comment = [s or "" for s in case["strings"]]
    ctx.note(bool(name and author), data, case["strings"])
    identifier = uuid.UUID(bytes_le=case["fixed"]["identifier"])
    run(ctx, (
        f"Windows Task Scheduler job information:\n\tIdentifier\t\t: {identifier!s}\n"
        f"\tApplication name\t: {name:s}\n\tParameters\t\t: {parameters:s}\n"
        f"\tAuthor\t\t\t: {author:s}\n\tComment\t\t\t: {comment:s}\n\n"), "job",
        ctx.write(data))


VALUE_TYPES = {0: "del", 1: "val"}


def check_leveldb(case, ctx):
    data, entries = leveldb_files.build_table(case)
    ctx.note(len(entries) > 1, data, entries[:3])
    text = "LevelDB database file information:\n"
    for key, sequence, value_type, value in entries:
        text += (f"{repr(key)[1:]:s} @ {sequence:d} : "
                 f"{VALUE_TYPES.get(value_type, 'UNKNOWN')} => {repr(value)[1:]:s}\n")
    run(ctx, text + "\n", "leveldb", ctx.write(data, "000005.ldb"))


def check_indexeddb(value, ctx):
    data = indexeddb_files.build(value)
    entries = [e for b in value[0] for e in b]
    ctx.note(len(entries) > 1, data, entries[:3])
    text = "IndexedDB database file information:\n"
    for key, sequence, value_type, stored in entries:
        text += (
            f"<<{', '.join(indexeddb_files.segments(key))}>> @ {sequence:d} : "
            f"{VALUE_TYPES.get(value_type, 'UNKNOWN')} => {repr(stored)[1:]:s}\n")
    run(ctx, text + "\n", "indexeddb", ctx.write(data, "000005.ldb"))


COLUMN_TYPES = {
    0: "String with size", 1: "Integer 32-bit signed", 2: "Integer 32-bit unsigned",
    3: "CSSM_DB_ATTRIBUTE_FORMAT_BIG_NUM", 4: "Floating-point 64-bit",
    5: "Date and time", 6: "Binary data", 7: "CSSM_DB_ATTRIBUTE_FORMAT_MULTI_UINT32",
    8: "CSSM_DB_ATTRIBUTE_FORMAT_COMPLEX"}


def shown(value):
    return "NULL" if value is None else str(value)


def check_keychain(case, ctx):
    data = keychain_file.build(case)
    path = ctx.write(data, "keychain")
    tables = keychain_file.expected_tables(case)
    ctx.note(any(len(t[2]) > 1 and len(t[3]) > 1 for t in tables), data,
             [t[1] for t in tables])
    text = "Keychain database file schema:\n"
    for identifier, name, columns, _ in tables:
        text += (f"Table: {name:s} (0x{identifier:08x})\n"
                 f"\tNumber of columns:\t{len(columns):d}\n"
                 "\tColumn\tIdentifier\tName\tType\n")
        for index, (column, attribute, kind) in enumerate(columns):
            number = ""
            if attribute is not None and attribute < len(columns):
                number = f"{attribute:d}"
            kind = "NULL" if kind is None else COLUMN_TYPES[kind]
            text += f"\t{index:d}\t{number:s}\t{column or 'NULL':s}\t{kind:s}\n"
        text += "\n"
    run(ctx, text + "\n", "keychain", path)

    result = scripts.run("keychain", "--content", path)
    equal(result.status, 0, "exit status")
    blocks = []
    for identifier, name, columns, rows in tables:
        block = f"Table: {name:s} (0x{identifier:08x})\n"
        block += "\t".join(column or "NULL" for column, _, _ in columns) + "\n"
        for row in rows:
            block += "\t".join(shown(value) for _, value in row) + "\n"
        blocks.append((identifier, block + "\n"))
    left = result.text
    for identifier, block in blocks:
        if identifier == 2:
            # Compare the number of lines only.
            size = 0
            for _ in range(block.count("\n")):
                size = left.index("\n", size) + 1
            equal(left[:size].split("\n")[0], block.split("\n")[0], "table line")
            left = left[size:]
        else:
            equal(left[:len(block)], block, "content of a table")
            left = left[len(block):]
    equal(left, "", "output after the last table")


SUBTESTS = [
    SubTest("usn_journal", usn_records.FILE, check_usn, 100, 3000),
    SubTest("rp_change_log", restore_point.LOG, check_change_log, 150, 4000),
    SubTest("recycle_bin", recycle_metadata.BIN, check_recycle_bin, 100, 3000),
    SubTest("job", job_file.FILE, check_job, 100, 3000),
    SubTest("leveldb", leveldb_files.TABLE, check_leveldb, 120, 4000),
    SubTest("indexeddb", indexeddb_files.FILE, check_indexeddb, 120, 4000),
    SubTest("keychain", keychain_file.database(), check_keychain, 150, 4000),
]
