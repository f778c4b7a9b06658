"""P36: Apple Unified Logging support files: dsc, uuidtext and timesync."""

import struct
import uuid

import dt
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import unified_logging

PROPERTY = "P36"
TITLE = "Unified logging: dsc, uuidtext and timesync files give what they store"
STATEMENT = (
    "For every shared-cache strings (dsc) file of format version 1 or 2 the ranges and UUIDs "
    "are the stored ones, each range with the image identifier, path and text range of the "
    "UUID descriptor it refers to, and GetImageValues returns for a string reference the "
    "image and the string of the first range (or, for a dynamic string reference, the first "
    "text range, with %s as the string) that contains it, and None when there is none. "
    "For every uuidtext file GetString returns the string at the string reference in "
    "the first entry that contains it, or None, and GetImagePath the path stored after the "
    "entries. ReadRecords of a timesync database returns the boot and sync records "
    "in the order stored. Debug mode prints the stored values. A string reference "
    "equal to the end of a range or entry is not part of it. Other signatures "
    "and versions, data that ends early, references to UUID descriptors that do not exist "
    "and records too small are parse errors and reading always terminates.")
QUANTIFIER = ("every number, size and order of ranges, descriptors and records, every string "
              "reference, in particular those at the bounds of the ranges")
WHY = ("The tests read two dsc files, one uuidtext file and one timesync database, and look "
       "up a few string references well within a range.")
FILES = ["dtformats/unified_logging.py", "dtformats/aul_dsc.yaml",
         "dtformats/aul_uuidtext.yaml", "dtformats/aul_timesync.yaml"]
MECHANISM = [
    ("dsc", "DSCFile._ReadRangeDescriptors, _ReadUUIDDescriptors, GetImageValues"),
    ("uuidtext", "UUIDTextFile.ReadFileObject, GetString, GetImagePath"),
    ("timesync", "TimesyncDatabaseFile.ReadRecords, _ReadRecord"),
]
OBSERVE = ["ranges, uuids, GetImageValues, GetString, GetImagePath, ReadRecords",
           "debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more ranges, entries or records"
ASSUMPTIONS = []

STRING = st.one_of(
    st.text(alphabet="%d {}s@abc", max_size=12),
    st.text(alphabet=st.characters(min_codepoint=0x20, max_codepoint=0x2FFF,
                                   exclude_categories=("Cs",)), max_size=8))
PATH = STRING.map(lambda text: "/usr/" + text)


@st.composite
def dsc_model(draw):
    version = draw(st.sampled_from([1, 2]))
    bits = 32 if version == 1 else 64
    uuids = draw(st.lists(st.tuples(
        st.one_of(st.integers(0, 4000), dt.u(bits)), st.one_of(st.integers(0, 600), dt.u(32)),
        st.uuids(), PATH), min_size=0, max_size=4))
    ranges = []
    offset = draw(st.one_of(st.integers(0, 1000), dt.u(bits)))
    if uuids:
        for strings in draw(dt.many(st.lists(STRING, max_size=4), max_size=5)):
            size = sum(len(string.encode("utf-8")) + 1 for string in strings)
            if draw(st.booleans()):
                offset = draw(st.integers(0, 3000))
            offset %= 1 << bits
            ranges.append((offset, strings, draw(st.integers(0, len(uuids) - 1))))
            # Adjacent ranges, most of the time.
            offset += size + draw(st.sampled_from([0, 0, 0, 1, 5]))
    order = draw(st.permutations(range(len(ranges))))
    ranges = [ranges[index] for index in order]
    extra = draw(st.integers(0, 5))
    picks = draw(st.lists(st.tuples(dt.u(8), dt.u(8), st.integers(-1, 1)), max_size=6))
    return version, uuids, ranges, extra, picks


def dsc_data(model):
    version, uuids, ranges, extra, _ = model
    descriptor, uuid_size = (16, 28) if version == 1 else (24, 32)
    offset = 16 + descriptor * len(ranges) + uuid_size * len(uuids) + extra
    tail = bytes(extra)
    range_data, uuid_data, expected_ranges, expected_uuids = b"", b"", [], []
    for start, strings, index in ranges:
        content = b"".join(string.encode("utf-8") + b"\x00" for string in strings)
        if version == 1:
            range_data += struct.pack("<IIII", index, start, offset, len(content))
        else:
            range_data += struct.pack("<QIIQ", start, offset, len(content), index)
        expected_ranges.append((start, len(content), offset, index))
        tail += content
        offset += len(content)
    for text_offset, text_size, identifier, path in uuids:
        content = path.encode("utf-8") + b"\x00"
        uuid_data += struct.pack("<II" if version == 1 else "<QI", text_offset, text_size)
        uuid_data += identifier.bytes + struct.pack("<I", offset)
        expected_uuids.append((text_offset, text_size, identifier, path, offset))
        tail += content
        offset += len(content)
    # A string at the end of the last range must end somewhere.
    data = b"hcsd" + struct.pack("<HHII", version, 0, len(ranges), len(uuids))
    return data + range_data + uuid_data + tail + b"\x00", expected_ranges, expected_uuids


def check_dsc(model, ctx):
    version, uuids, ranges, _, picks = model
    data, expected_ranges, expected_uuids = dsc_data(model)
    path = ctx.write(data, "dsc")
    ctx.note(len(ranges) >= 2, key=data.hex(), sample=f"version {version} ranges {ranges!r}",
             labels=[f"version:{version}"])
    writer = dt.Recorder()
    dsc_file = unified_logging.DSCFile(debug=True, output_writer=writer)
    dsc_file.Open(path)
    try:
        pairs = [("Signature", "hcsd"), ("Major format version", version),
                 ("Minor format version", 0), ("Number of ranges", len(ranges)),
                 ("Number of UUIDs", len(uuids))]
        for start, size, offset, index in expected_ranges:
            pairs += [("Data offset", dt.hex8(offset)), ("Range offset", dt.hex8(start)),
                      ("Range size", size), ("UUID descriptor index", index)]
        for text_offset, text_size, identifier, image_path, offset in expected_uuids:
            pairs += [("Text offset", dt.hex8(text_offset)), ("Text size", text_size),
                      ("Image identifier", str(identifier)), ("Path offset", dt.hex8(offset)),
                      ("Image path", image_path)]
        dt.pairs_equal(writer.text, pairs)
        sequences_equal(
            [(r.range_offset, r.range_size, r.data_offset, r.uuid_index, r.image_identifier,
              r.image_path, r.text_offset, r.text_size) for r in dsc_file.ranges],
            [(start, size, offset, index, uuids[index][2], uuids[index][3], uuids[index][0],
              uuids[index][1]) for start, size, offset, index in expected_ranges], "ranges")
        sequences_equal([(u.text_offset, u.text_size, u.image_identifier, u.image_path)
                         for u in dsc_file.uuids], [tuple(u) for u in uuids], "uuids")
        references = set()
        for start, size, _, index in expected_ranges:
            references.update((start - 1, start, start + size - 1, start + size,
                               start + size + 1))
            text = uuids[index]
            references.update((text[0] - 1, text[0], text[0] + text[1] - 1, text[0] + text[1],
                               text[0] + text[1] + 1))
        for first, second, delta in picks:
            if expected_ranges:
                start, size = expected_ranges[first % len(expected_ranges)][:2]
                references.add(start + second % (size + 1) + delta)
        for reference in sorted(references):
            if reference < 0:
                continue
            for is_dynamic in (False, True):
                check_reference(dsc_file, data, uuids, expected_ranges, reference, is_dynamic)
    finally:
        dsc_file.Close()


def check_reference(dsc_file, data, uuids, ranges, reference, is_dynamic):
    what = f"image values of {reference} (dynamic: {is_dynamic})"
    expected = None
    for start, size, offset, index in ranges:
        text_offset, text_size, identifier, path = uuids[index]
        if is_dynamic:
            first, length = text_offset, text_size
        else:
            first, length = start, size
        if first <= reference < first + length:
            string = "%s"
            if not is_dynamic:
                raw = data[offset + reference - first:].split(b"\x00", 1)[0]
                try:
                    string = raw.decode("utf-8")
                except UnicodeDecodeError:
                    # The reference is not the start of a character.
                    return
            expected = (identifier, path, string, text_offset)
            break
    found = dsc_file.GetImageValues(reference, is_dynamic)
    if found is not None:
        found = (found.identifier, found.path, found.string, found.text_offset)
    equal(found, expected, what)


@st.composite
def uuidtext_model(draw):
    entries = []
    offset = draw(st.integers(0, 1000))
    for strings in draw(dt.many(st.lists(STRING, max_size=4), max_size=5)):
        size = sum(len(string.encode("utf-8")) + 1 for string in strings)
        if draw(st.booleans()):
            offset = draw(st.one_of(st.integers(0, 3000), dt.u(32)))
        entries.append((offset & 0xFFFFFFFF, strings))
        offset += size + draw(st.sampled_from([0, 0, 0, 1]))
    entries = list(draw(st.permutations(entries)))
    picks = draw(st.lists(st.tuples(dt.u(8), dt.u(8)), max_size=6))
    return entries, draw(PATH), draw(st.binary(max_size=4)), picks


def uuidtext_data(model):
    entries, path, trailer, _ = model
    header, content = b"", b""
    for offset, strings in entries:
        strings_data = b"".join(string.encode("utf-8") + b"\x00" for string in strings)
        header += struct.pack("<II", offset, len(strings_data))
        content += strings_data
    return (b"\x99\x88\x77\x66" + struct.pack("<III", 2, 1, len(entries)) + header +
            content + path.encode("utf-8") + b"\x00" + trailer)


def check_uuidtext(model, ctx):
    entries, image_path, _, picks = model
    data = uuidtext_data(model)
    path = ctx.write(data, "uuidtext")
    ctx.note(len(entries) >= 2, key=data.hex(), sample=f"{entries!r}",
             labels=[f"entries:{min(3, len(entries))}"])
    for debug in (False, True):
        writer = dt.Recorder()
        uuidtext_file = unified_logging.UUIDTextFile(debug=debug, output_writer=writer)
        uuidtext_file.Open(path)
        try:
            equal(uuidtext_file.GetImagePath(), image_path, "image path")
            layout, file_offset = [], 16 + 8 * len(entries)
            for offset, strings in entries:
                size = sum(len(string.encode("utf-8")) + 1 for string in strings)
                layout.append((offset, size, file_offset))
                file_offset += size
            if debug:
                for label, value in (("Major format version", 2), ("Minor format version", 1),
                                     ("Number of entries", len(entries)),
                                     ("Image path", image_path)):
                    equal([v for k, v in dt.values(writer.text) if k == label][:1],
                          [f"{value}"], label)
                for index, (offset, size, _) in enumerate(layout):
                    require(f"\t[{index:03d}] offset: 0x{offset:08x}, data size: {size:d}\n"
                            in writer.text, f"entry descriptor {index} not printed")
            references = set()
            for offset, size, _ in layout:
                references.update((offset - 1, offset, offset + size - 1, offset + size,
                                   offset + size + 1))
            for first, second in picks:
                if layout:
                    offset, size, _ = layout[first % len(layout)]
                    references.add(offset + second % (size + 1))
            for reference in sorted(references):
                if reference < 0:
                    continue
                expected = None
                for offset, size, file_offset in layout:
                    if offset <= reference < offset + size:
                        raw = data[file_offset + reference - offset:].split(b"\x00", 1)[0]
                        expected = raw
                        break
                if expected is not None:
                    try:
                        expected = expected.decode("utf-8")
                    except UnicodeDecodeError:
                        continue
                equal(uuidtext_file.GetString(reference), expected, f"string at {reference}")
        finally:
            uuidtext_file.Close()


BOOT = st.fixed_dictionaries(dict(
    unknown=dt.u(32), boot_identifier=st.uuids(), timebase_numerator=dt.u(32),
    timebase_denominator=dt.u(32), timestamp=st.one_of(st.integers(0, 2 ** 61), dt.s(64)),
    time_zone_offset=dt.s(32), daylight_saving_flag=dt.u(32)))
SYNC = st.fixed_dictionaries(dict(
    unknown=dt.u(32), kernel_time=dt.u(64),
    timestamp=st.one_of(st.integers(0, 2 ** 61), dt.s(64)), time_zone_offset=dt.s(32),
    daylight_saving_flag=dt.u(32)))
RECORDS = st.lists(st.tuples(st.one_of(BOOT, SYNC, SYNC),
                             st.one_of(st.just(b""), st.binary(max_size=9))), max_size=8)


def timesync_data(records):
    data = b""
    for record, extra in records:
        if "boot_identifier" in record:
            data += b"\xb0\xbb" + struct.pack("<HI", 48 + len(extra), record["unknown"])
            data += record["boot_identifier"].bytes + struct.pack(
                "<IIqiI", record["timebase_numerator"], record["timebase_denominator"],
                record["timestamp"], record["time_zone_offset"],
                record["daylight_saving_flag"])
        else:
            data += b"Ts" + struct.pack("<HI", 32 + len(extra), record["unknown"])
            data += struct.pack("<QqiI", record["kernel_time"], record["timestamp"],
                                record["time_zone_offset"], record["daylight_saving_flag"])
        data += extra
    return data


def check_timesync(records, ctx):
    data = timesync_data(records)
    path = ctx.write(data, "x.timesync")
    ctx.note(len(records) >= 2, key=data.hex(), sample=f"{records!r}"[:300])
    for debug in (False, True):
        writer = dt.Recorder()
        timesync_file = unified_logging.TimesyncDatabaseFile(debug=debug, output_writer=writer)
        timesync_file.Open(path)
        try:
            found = list(timesync_file.ReadRecords())
            equal(len(list(timesync_file.ReadRecords())), len(records), "records read again")
        finally:
            timesync_file.Close()
        equal(len(found), len(records), "number of records")
        for index, ((expected, extra), record) in enumerate(zip(records, found)):
            for name, value in expected.items():
                equal(getattr(record, name.replace("unknown", "unknown1"), None), value,
                      f"record {index} {name}")
            boot = "boot_identifier" in expected
            equal(record.record_size, (48 if boot else 32) + len(extra), "record size")
        if debug:
            pairs = []
            for record, extra in records:
                boot = "boot_identifier" in record
                pairs += [("Record size", (48 if boot else 32) + len(extra)),
                          ("Unknown1", dt.hex8(record["unknown"]))]
                if boot:
                    pairs += [("Boot identifier", str(record["boot_identifier"])),
                              ("Timebase numerator", record["timebase_numerator"]),
                              ("Timebase denominator", record["timebase_denominator"])]
                else:
                    pairs += [("Kernel time", record["kernel_time"])]
                pairs += [("Timestamp", dt.posix_ns(record["timestamp"])),
                          ("Time zone offset", record["time_zone_offset"]),
                          ("Daylight saving flag", record["daylight_saving_flag"])]
            dt.pairs_equal(writer.text, pairs + pairs, labels=[label for label, _ in pairs])


@st.composite
def broken(draw):
    kind = draw(st.sampled_from(["dsc", "uuidtext", "timesync"]))
    if kind == "dsc":
        model = draw(dsc_model().filter(lambda model: model[2]))
        data = dsc_data(model)[0]
        version = model[0]
        how = draw(st.sampled_from(["signature", "version", "minor", "index", "short"]))
        if how == "signature":
            data = b"hcsx" + data[4:]
        elif how == "version":
            data = data[:4] + struct.pack("<H", draw(st.sampled_from([0, 3, 256]))) + data[6:]
        elif how == "minor":
            data = data[:6] + struct.pack("<H", draw(st.integers(1, 65535))) + data[8:]
        elif how == "index":
            value = len(model[1]) + draw(st.sampled_from([0, 1, 0x7FFFFFFF]))
            at = 16 if version == 1 else 16 + 16
            size = 4 if version == 1 else 8
            data = data[:at] + value.to_bytes(size, "little") + data[at + size:]
        else:
            end = 16 + (16 if version == 1 else 24) * len(model[2]) + (
                28 if version == 1 else 32) * len(model[1])
            data = data[:draw(st.integers(0, end))]
    elif kind == "uuidtext":
        model = draw(uuidtext_model())
        data = uuidtext_data(model)
        how = draw(st.sampled_from(["signature", "version", "minor", "number", "short"]))
        if how == "signature":
            data = b"\x99\x88\x77\x67" + data[4:]
        elif how in ("version", "minor"):
            at = 4 if how == "version" else 8
            value = draw(dt.u(32).filter(lambda value: value != (2 if at == 4 else 1)))
            data = data[:at] + struct.pack("<I", value) + data[at + 4:]
        elif how == "number":
            data = data[:12] + struct.pack("<I", draw(
                st.sampled_from([len(data), 0xFFFFFF, 0x7FFFFFFF, 0xFFFFFFFF]))) + data[16:]
        else:
            data = data[:draw(st.integers(0, len(data) - len(model[2]) - 1))]
    else:
        records = draw(RECORDS.filter(bool))
        data = timesync_data(records)
        how = draw(st.sampled_from(["signature", "size", "short"]))
        last = timesync_data(records[:-1])
        boot = "boot_identifier" in records[-1][0]
        if how == "signature":
            data = last + b"\xb0\xbc" + data[len(last) + 2:]
        elif how == "size":
            size = draw(st.integers(0, 47 if boot else 31))
            data = data[:len(last) + 2] + struct.pack("<H", size) + data[len(last) + 4:]
        else:
            data = data[:draw(st.integers(len(last) + 1, len(last) + (47 if boot else 31)))]
    return kind, how, data


CLASSES = {"dsc": unified_logging.DSCFile, "uuidtext": unified_logging.UUIDTextFile,
           "timesync": unified_logging.TimesyncDatabaseFile}


def check_broken(case, ctx):
    kind, how, data = case
    path = ctx.write(data, kind)
    ctx.note(True, key=data.hex(), sample=f"{kind} {how} {data[:64]!r}",
             labels=[f"{kind}:{how}"])
    for debug in (False, True):
        test_file = CLASSES[kind](debug=debug, output_writer=dt.Recorder())
        try:
            test_file.Open(path)
        except unified_logging.errors.ParseError:
            continue
        try:
            if kind == "timesync":
                list(test_file.ReadRecords())
        except unified_logging.errors.ParseError:
            continue
        finally:
            test_file.Close()
        require(False, f"{kind} file with invalid {how} was accepted")


GENERATORS = {
    "aul_dsc": dsc_model().map(lambda model: dsc_data(model)[0]),
    "aul_uuidtext": uuidtext_model().map(uuidtext_data),
    "aul_timesync": RECORDS.map(timesync_data),
}
SUBTESTS = [
    SubTest("dsc", dsc_model(), check_dsc, 400, 15000),
    SubTest("uuidtext", uuidtext_model(), check_uuidtext, 400, 15000),
    SubTest("timesync", RECORDS, check_timesync, 300, 10000),
    SubTest("broken", broken(), check_broken, 400, 15000),
]
