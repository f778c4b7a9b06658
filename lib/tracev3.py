"""Writes Apple Unified Logging tracev3 files with the log entries they must give.

Independent of dtformats: the layout follows the documentation of the format.
"""

import struct
import uuid

from vf import st

import dt

MISSING = "<decode: missing data>"
COMPOSE = "<compose failure [missing precomposed log]>"
MASK = (1 << 63) - 1
LOG_TYPES = {0: "Default", 1: "Info", 2: "Debug", 3: "Useraction", 0x10: "Error", 0x11: "Fault"}
# All log types, as shown in debug mode.
LOG_TYPE_NAMES = dict(LOG_TYPES)
LOG_TYPE_NAMES.update({
    scope << 4 | number: f"{name} Signpost {kind}"
    for scope, name in ((4, "Thread"), (8, "Process"), (12, "System"))
    for number, kind in enumerate(("Event", "Start", "End"))})
RECORD_TYPE_NAMES = {
    0: "Unused", 2: "Activity", 3: "Trace", 4: "Log", 6: "Signpost", 7: "Loss"}
STREAM_TYPE_NAMES = {0: "persist", 1: "special handling", 2: "memory", 4: "signpost"}
FLAG_NAMES = {
    0x0001: "Has current activity identfier", 0x0010: "Has process identifier (PID) value",
    0x0020: "Has large offset data", 0x0100: "Has private data range",
    0x0200: "Has sub system value", 0x0400: "Has rules value",
    0x0800: "Has data reference value", 0x1000: "Has backtrace", 0x8000: "Has name"}
STRINGS_NAMES = {
    0x0002: "Strings in uuidtext file by proc_id", 0x0004: "Strings in DSC file",
    0x0008: "Strings in uuidtext file by reference",
    0x000A: "Strings in uuidtext file by identifier", 0x000C: "Strings in DSC file"}
SCOPES = {4: "thread", 8: "process", 12: "system"}
SIGNPOST_TYPES = {0: "event", 1: "begin", 2: "end"}

TEXT = st.text(alphabet=st.one_of(
    st.sampled_from("abc {}:\"/\\\r\t\n\x01"),
    st.characters(min_codepoint=0x20, max_codepoint=0x2FFF, exclude_characters="%",
                  exclude_categories=("Cs",))), max_size=8)
OPERATOR = st.sampled_from([
    ("%d", "i"), ("%lld", "i"), ("%{public}d", "i"), ("%u", "u"), ("%llu", "u"), ("%x", "x"),
    ("%s", "s"), ("%@", "s"), ("%{public}@", "s"), ("%{private}s", "s"), ("%{public}s", "s"),
    ("%{public,uuid_t}.16P", "uuid"), ("%{name=thing}s", "s"), ("%{bool}d", "bool")])
# A format string is a list of segments: a literal, "%%" or an operator.
FORMAT = st.one_of(*[st.lists(
    st.one_of(TEXT.filter(bool), st.just("%%"), OPERATOR, OPERATOR), max_size=5)] * 3 + [
        st.lists(st.sampled_from([("%d", "i"), ("%llu", "u"), ("%x", "x"), " "]),
                 min_size=3, max_size=9)])
PATH = TEXT.map(lambda text: "/usr/" + text.replace("\x00", ""))


def format_text(segments):
    return "".join(segment if isinstance(segment, str) else segment[0] for segment in segments)


def operators(segments):
    return [segment[1] for segment in segments if not isinstance(segment, str)]


def compose(segments, values):
    """Returns the message for a list of segments."""
    values = list(values)
    result = ""
    for segment in segments:
        if segment == "%%":
            result += "%"
        elif isinstance(segment, str):
            result += segment
        else:
            result += values.pop(0) if values else MISSING
    return result


def align(data, size=8):
    return data + bytes(-len(data) % size)


def chunk(tag, data, sub_tag=0, size=None):
    return struct.pack("<IIQ", tag, sub_tag, len(data) if size is None else size) + data


class Strings:
    """The string files: uuidtext and dsc."""

    def __init__(self):
        self.uuidtext = {}
        self.dsc = {}


@st.composite
def string_files(draw):
    strings = Strings()
    identifiers = draw(st.lists(st.uuids(), min_size=5, max_size=7, unique=True))
    for identifier in identifiers[:4]:
        if draw(st.integers(0, 5)) == 0:
            continue
        entries, offset = [], draw(st.one_of(st.integers(1, 500), st.integers(1, 0x7FFF0000)))
        for formats in draw(st.lists(st.lists(FORMAT, min_size=1, max_size=3), min_size=1,
                                     max_size=3)):
            entries.append((offset, formats))
            offset += sum(len(format_text(f).encode("utf-8")) + 1 for f in formats)
            if draw(st.booleans()):
                offset = min(0xFFFF0000, offset + draw(st.one_of(
                    st.integers(0, 50), st.just(0x80000000))))
        strings.uuidtext[identifier] = (entries, draw(PATH))
    for identifier in identifiers[4:6]:
        if draw(st.integers(0, 5)) == 0:
            continue
        images, ranges = [], []
        text = draw(st.integers(0, 1 << 33))
        for image in draw(st.lists(st.uuids(), min_size=1, max_size=3)):
            size = draw(st.integers(1, 1 << 20))
            images.append((text, size, image, draw(PATH)))
            text += size + draw(st.sampled_from([0, 0, 5]))
        offset = draw(st.one_of(st.integers(1, 1 << 31), st.integers(1, 1 << 46)))
        for formats in draw(st.lists(st.lists(FORMAT, min_size=1, max_size=3), min_size=1,
                                     max_size=4)):
            ranges.append((offset, formats, draw(st.integers(0, len(images) - 1))))
            offset += sum(len(format_text(f).encode("utf-8")) + 1 for f in formats)
            offset += draw(st.one_of(st.integers(0, 50), st.just(1 << 31)))
        strings.dsc[identifier] = (ranges, images)
    return strings, identifiers


def uuidtext_data(entries, path):
    header, content = b"", b""
    for offset, formats in entries:
        data = b"".join(format_text(f).encode("utf-8") + b"\x00" for f in formats)
        header += struct.pack("<II", offset, len(data))
        content += data
    return (b"\x99\x88\x77\x66" + struct.pack("<III", 2, 1, len(entries)) + header + content +
            path.encode("utf-8") + b"\x00")


def dsc_data(ranges, images):
    offset = 16 + 24 * len(ranges) + 32 * len(images)
    range_data, uuid_data, tail = b"", b"", b""
    for start, formats, index in ranges:
        data = b"".join(format_text(f).encode("utf-8") + b"\x00" for f in formats)
        range_data += struct.pack("<QIIQ", start, offset + len(tail), len(data), index)
        tail += data
    for text, size, identifier, path in images:
        uuid_data += struct.pack("<QI", text, size) + identifier.bytes
        uuid_data += struct.pack("<I", offset + len(tail))
        tail += path.encode("utf-8") + b"\x00"
    return (b"hcsd" + struct.pack("<HHII", 2, 0, len(ranges), len(images)) + range_data +
            uuid_data + tail)


def references(entries):
    """Yields (reference, format segments) of entries or ranges."""
    for entry in entries:
        offset = entry[0]
        for segments in entry[1]:
            yield offset, segments
            offset += len(format_text(segments).encode("utf-8")) + 1


@st.composite
def process(draw, number_of_uuids, strings_size):
    result = dict(
        main=draw(st.one_of(st.integers(0, 3), st.integers(0, 3), st.just(-1))),
        dsc=draw(st.one_of(st.integers(4, number_of_uuids - 1), st.just(-1))),
        upper=draw(st.one_of(st.integers(0, 3), dt.u(64))),
        lower=draw(st.one_of(st.integers(0, 3), dt.u(32))),
        pid=draw(dt.u(32)), euid=draw(dt.u(32)), images=[], subsystems=[])
    address = draw(st.one_of(st.integers(0, 1 << 33), st.integers(0, (1 << 47) - 1)))
    for index in draw(st.lists(st.integers(0, 3), max_size=3)):
        size = draw(st.one_of(st.integers(1, 1 << 16), dt.u(32)))
        result["images"].append((address, size, index))
        address += draw(st.sampled_from([size, size, size + 1, size + 1000, size // 2]))
    result["images"] = [image for image in result["images"] if image[0] < 1 << 48]
    for identifier in draw(st.lists(st.integers(0, 9), max_size=3, unique=True)):
        result["subsystems"].append((identifier, draw(st.integers(0, strings_size)),
                                     draw(st.integers(0, strings_size))))
    return result


@st.composite
def catalog(draw, identifiers):
    strings = draw(st.lists(TEXT, min_size=1, max_size=4))
    processes = draw(st.lists(process(len(identifiers), len(strings) - 1), min_size=1,
                              max_size=3, unique_by=lambda p: (p["upper"], p["lower"])))
    sub_chunks = draw(st.lists(st.tuples(
        dt.u(32), dt.u(32), dt.u(32), st.lists(dt.u(16), max_size=3),
        st.lists(dt.u(16), max_size=3)), max_size=2))
    return strings, processes, sub_chunks, draw(st.integers(0, 1 << 50))


def catalog_data(model, identifiers):
    strings, processes, sub_chunks, earliest = model
    uuids = b"".join(identifier.bytes for identifier in identifiers)
    offsets, texts = [], b""
    for string in strings:
        offsets.append(len(texts))
        texts += string.encode("utf-8") + b"\x00"
    texts = align(texts)
    entries = b""
    for index, p in enumerate(processes):
        entry = struct.pack("<HHhhQIIIIII", index, 0, p["main"], p["dsc"], p["upper"],
                            p["lower"], p["pid"], p["euid"], 0, len(p["images"]), 0)
        for address, size, uuid_index in p["images"]:
            entry += struct.pack("<IIHIH", size, 0, uuid_index, address & 0xFFFFFFFF,
                                 address >> 32)
        entry += struct.pack("<II", len(p["subsystems"]), 0)
        for identifier, first, second in p["subsystems"]:
            entry += struct.pack("<HHH", identifier, offsets[first], offsets[second])
        entries += align(entry)
    chunks = b""
    for start, end, size, indexes, string_offsets in sub_chunks:
        data = struct.pack("<QQIII", start, end, size, 0x100, len(indexes))
        data += struct.pack(f"<{len(indexes)}H", *indexes)
        data += struct.pack("<I", len(string_offsets))
        data += struct.pack(f"<{len(string_offsets)}H", *string_offsets)
        chunks += align(data)
    base = len(uuids) + len(texts)
    header = struct.pack("<HHHHH6sQ", len(uuids), base, len(processes), base + len(entries),
                         len(sub_chunks), bytes(6), earliest)
    return header + uuids + texts + entries + chunks


@st.composite
def data_items(draw, kinds, allow_private, room=None):
    """Draws data items.

    Returns items, values data, private data and the values as formatted.
    """
    items, public, private, values = b"", b"", b"", []
    number = 0
    kinds = list(kinds)
    change = draw(st.integers(0, 7))
    if change == 0:
        kinds = kinds[:-1]
    elif change == 1:
        kinds = kinds + ["s"]
    for kind in kinds:
        if draw(st.integers(0, 7)) == 0:
            items += struct.pack("<BBI", draw(st.sampled_from([0x10, 0x12])), 4,
                                 draw(st.integers(0, 100)))
            number += 1
        number += 1
        if draw(st.integers(0, 6)) == 0:
            value_type = draw(st.sampled_from([0x01, 0x25, 0x31, 0x35, 0x45]))
            data = draw(st.binary(min_size=4, max_size=4))
            items += bytes([value_type, 4]) + data
            values.append("<private>")
            continue
        if kind in ("i", "u", "x", "bool"):
            size = draw(st.sampled_from([4, 8, 4, 8, 1, 2]))
            data = draw(st.one_of(st.binary(min_size=size, max_size=size),
                                  st.just(bytes(size))))
            items += bytes([draw(st.sampled_from([0, 2])), size]) + data
            value = int.from_bytes(data, "little", signed=kind == "i")
            if kind == "bool":
                values.append("true" if value else "false")
            else:
                values.append(f"{value:x}" if kind == "x" else f"{value:d}")
            continue
        if kind == "uuid":
            identifier = draw(st.uuids())
            data, expected = identifier.bytes, str(identifier).upper()
            value_type = draw(st.sampled_from([0x30, 0x32, 0xF2]))
        else:
            text = draw(TEXT)
            data = text.encode("utf-8") + draw(st.sampled_from([b"", b"\x00"]))
            expected = text if data else "(null)"
            types = [0x20, 0x22, 0x40, 0x42] + ([0x21, 0x41] * 2 if allow_private else [])
            value_type = draw(st.sampled_from(types))
        gap = draw(st.sampled_from([b"", b"", b"\xee"]))
        if value_type in (0x21, 0x41):
            private += gap
            items += struct.pack("<BBHH", value_type, 4, len(private), len(data))
            private += data
            values.append(expected if data else "<private>")
        else:
            public += gap
            items += struct.pack("<BBHH", value_type, 4, len(public), len(data))
            public += data
            values.append(expected)
    return number, items, public, private, values


def item_lines(items):
    offset = 0
    while offset < len(items):
        yield "Value type", f"0x{items[offset]:02x}"
        yield "Data item data size", items[offset + 1]
        offset += 2 + items[offset + 1]


def shift(items, amount):
    """Moves the value data ranges of the data items by an amount."""
    result, offset = b"", 0
    while offset < len(items):
        value_type, size = items[offset], items[offset + 1]
        if value_type in (0x20, 0x22, 0x40, 0x42, 0x30, 0x32, 0xF2):
            start, length = struct.unpack_from("<HH", items, offset + 2)
            result += struct.pack("<BBHH", value_type, 4, start + amount, length)
        else:
            result += items[offset:offset + 2 + size]
        offset += 2 + size
    return result


class Builder:
    """Builds chunks for one process together with the expected log entries."""

    def __init__(self, draw, strings, identifiers, model, common):
        self.draw = draw
        self.strings = strings
        self.identifiers = identifiers
        self.model = model
        self.common = common
        self.debug = []
        self.ranges = []

    def subsystem(self, p, identifier):
        for number, first, second in p["subsystems"]:
            if number == identifier:
                return self.model[0][first], self.model[0][second]
        return None, None

    def process_image(self, p):
        if p["main"] >= 0:
            found = self.strings.uuidtext.get(self.identifiers[p["main"]])
            if found:
                return self.identifiers[p["main"]], found[1]
        return None, None

    def location(self, p, activity=False):
        """Draws where the format string is stored.

        Returns a dictionary with what to store and what is expected.
        """
        draw = self.draw
        types = [0x0A]
        if p["main"] >= 0:
            types += [2, 2]
        if p["dsc"] >= 0:
            types += [4, 0x0C, 0x0C]
        if p["images"]:
            types += [8, 8]
        kind = draw(st.sampled_from(types))
        result = dict(kind=kind, lower=draw(dt.u(32)), upper=None, offset=None, cache=None,
                      identifier=None, name=None)
        image_offset = 0
        owner = None
        if kind == 2:
            owner = self.identifiers[p["main"]]
        elif kind == 0x0A:
            owner = result["identifier"] = self.identifiers[draw(st.integers(0, 3))]
        elif kind == 8:
            address, size, index = draw(st.sampled_from(p["images"]))
            target = address + draw(st.one_of(
                st.integers(0, max(size - 1, 0)), st.sampled_from([0, size - 1, size])))
            target = max(0, min(target, (1 << 48) - 1))
            result["lower"], result["upper"] = target & 0xFFFFFFFF, target >> 32
            for address, size, index in p["images"]:
                if address <= target < address + size:
                    owner, image_offset = self.identifiers[index], address
                    break
        else:
            owner = self.identifiers[p["dsc"]]
        if kind in (4, 0x0C):
            stored = self.strings.dsc.get(owner)
        else:
            stored = self.strings.uuidtext.get(owner)
        candidates = list(references(stored[0])) if stored else []
        dynamic = draw(st.integers(0, 5)) == 0
        if dynamic and kind in (4, 0x0C) and stored:
            text, size, _, _ = draw(st.sampled_from(stored[1]))
            reference = text + draw(st.one_of(
                st.integers(0, size - 1), st.sampled_from([0, size - 1, size])))
        elif candidates and draw(st.integers(0, 7)):
            reference = draw(st.sampled_from(candidates))[0]
        else:
            reference = draw(st.one_of(dt.u(31), st.integers(0, (1 << 46) - 1)))
        high = reference >> 31
        if kind == 0x0C:
            result["cache"] = high
            choice = draw(st.integers(0, 4))
            if choice == 0:
                result["offset"] = high >> 1
            elif choice == 4:
                result["offset"] = high
            elif choice == 1 and high:
                result["offset"] = draw(st.integers(1, 0xFFFF))
        elif high or draw(st.integers(0, 3)) == 0:
            result["offset"] = high
        result["reference"] = reference & 0x7FFFFFFF | (0x80000000 if dynamic else 0)
        result["image"] = self.resolve(kind, owner, reference, dynamic, image_offset, result)
        result["owner"], result["image_offset"] = owner, image_offset
        load = result["lower"] | (result["upper"] or 0) << 32
        if result["cache"]:
            if result["offset"] and result["offset"] != result["cache"] >> 1:
                load |= result["offset"] << 32
            else:
                load |= result["cache"] << 31
        elif result["offset"]:
            load |= result["offset"] << 31
        text_offset = result["image"][3] if result["image"] else 0
        result["counter"] = load - text_offset
        result["candidates"] = candidates
        return result

    def resolve(self, kind, owner, reference, dynamic, image_offset, location):
        """Returns (identifier, path, format segments, text offset) or None."""
        if owner is None:
            return None
        if kind in (2, 8, 0x0A):
            stored = self.strings.uuidtext.get(owner)
            if not stored:
                return owner, None, None, image_offset
            if dynamic:
                return owner, stored[1], [("%s", "s")], image_offset
            segments = self.lookup(stored[0], reference)
            if segments is None:
                return owner, stored[1], None, (location["offset"] or 0) << 31
            return owner, stored[1], segments, image_offset
        stored = self.strings.dsc.get(owner)
        found = None
        if stored:
            ranges, images = stored
            for start, formats, index in ranges:
                text, size, identifier, path = images[index]
                if dynamic:
                    if text <= reference < text + size:
                        found = (identifier, path, [("%s", "s")], text)
                        break
                else:
                    segments = self.lookup([(start, formats)], reference)
                    if segments is not None:
                        found = (identifier, path, segments, text)
                        break
        found = found or (owner, None, None, 0)
        cache, offset = location["cache"], location["offset"]
        if cache and offset and offset != cache >> 1:
            found = (owner, "", found[2], 0)
        return found

    @staticmethod
    def lookup(entries, reference):
        for offset, formats in entries:
            size = sum(len(format_text(f).encode("utf-8")) + 1 for f in formats)
            if offset <= reference < offset + size:
                content = b"".join(format_text(f).encode("utf-8") + b"\x00" for f in formats)
                for start, segments in references([(offset, formats)]):
                    if start == reference:
                        return segments
                # In the middle of a string: only literals are predictable.
                raw = content[reference - offset:].split(b"\x00", 1)[0]
                return [("raw", raw)]
        return None

    def location_bytes(self, location):
        data = struct.pack("<I", location["lower"])
        if location["offset"] is not None:
            data += struct.pack("<H", location["offset"])
        if location["upper"] is not None:
            data += struct.pack("<H", location["upper"])
        if location["identifier"] is not None:
            data += location["identifier"].bytes
        if location["cache"] is not None:
            data += struct.pack("<H", location["cache"])
        return data

    @staticmethod
    def location_lines(location):
        lines = [("UUID entry load address (lower 32-bit)", dt.hex8(location["lower"]))]
        for label, key in (("Large offset data", "offset"),
                           ("UUID entry load address (upper 16-bit)", "upper"),
                           ("UUIDText file identifier", "identifier"),
                           ("Large shared cache data", "cache")):
            value = location[key]
            if value is not None:
                lines.append((label, value if key == "identifier" else f"0x{value:04x}"))
        return lines

    def location_flags(self, location):
        return location["kind"] | (0x20 if location["offset"] is not None else 0)

    def entry(self, p, location, base, delta, thread, record_type, log_type, flags):
        identifier, path = self.process_image(p)
        image = location["image"]
        segments = image[2] if image else None
        return dict(
            boot_identifier=self.common["boot"], mach_timestamp=base + delta,
            process_image_identifier=identifier, process_image_path=path,
            process_identifier=p["pid"], thread_identifier=thread, time=base + delta,
            trace_identifier=(location["reference"] << 32 | flags << 16 | log_type << 8 |
                              record_type),
            format_string=None if segments is None else format_text(segments),
            sender_image_identifier=image[0] if image else None,
            sender_image_path=image[1] if image else None,
            sender_program_counter=location["counter"],
            ttl=0, frames=[(image[0], location["counter"])] if image else [])

    def message(self, location, values):
        image = location["image"]
        if not image:
            return COMPOSE
        if image[2] is None:
            return ""
        return compose(image[2], values)

    def tracepoint(self, p, base, private_offset, oversize):
        """Returns the data, private data and expected log entry (or None)."""
        draw = self.draw
        kind = draw(st.sampled_from(["log"] * 6 + ["signpost"] * 2 + [
            "activity", "trace", "loss", "unused"]))
        thread, delta = draw(dt.u(64)), draw(dt.u(48))
        if kind == "unused":
            data = draw(st.binary(max_size=20))
            return self.wrap(0, draw(dt.u(8)), draw(dt.u(16)), draw(dt.u(32)), thread, delta,
                             data), b"", None
        if kind == "loss":
            start, end, count = draw(dt.u(50)), draw(dt.u(50)), draw(dt.u(64))
            reference = draw(dt.u(32))
            expected = dict(
                boot_identifier=self.common["boot"], mach_timestamp=base + delta,
                thread_identifier=thread, time=base + delta, event_type="lossEvent",
                trace_identifier=reference << 32 | 7, loss_count=count,
                loss_start_mach_timestamp=start, loss_end_mach_timestamp=end,
                loss_start=start, loss_end=end,
                process_image_identifier=self.process_image(p)[0],
                event_message=(
                    f"lost >={count:d} unreliable messages from {start:d}-{end:d} (Mach "
                    f"continuous exact start-approx. end)"))
            return self.wrap(7, 0, 0, reference, thread, delta,
                             struct.pack("<QQQ", start, end, count), [
                                 ("Start time", start), ("End time", end),
                                 ("Number of messages", count)]), b"", expected
        if kind == "trace":
            if p["main"] < 0:
                return self.tracepoint(p, base, private_offset, oversize)
            return self.trace(p, base, thread, delta)
        location = self.location(p)
        if location["image"] and location["image"][2] and any(
                segment[0] == "raw" for segment in location["image"][2]):
            # A reference to the middle of a string, only used where it is predictable.
            return self.tracepoint(p, base, private_offset, oversize)
        flags = self.location_flags(location)
        data, private = b"", b""
        segments = location["image"][2] if location["image"] else None
        if kind == "activity":
            return self.activity(p, base, thread, delta, location, flags)
        activity = draw(st.one_of(st.none(), dt.u(64)))
        kinds = operators(segments or [])
        use_oversize = oversize is not None and draw(st.integers(0, 3)) == 0
        items = draw(data_items(kinds, allow_private=True))
        backtrace, frames = b"", []
        if kind == "log" and draw(st.integers(0, 3)) == 0:
            backtrace, frames = self.backtrace()
            flags |= 0x1000
        number, item_data, public, private, values = items
        later = list(item_lines(item_data))
        reference = None
        if use_oversize:
            reference = draw(st.one_of(st.integers(1, 4), st.integers(1, 0xFFFF)))
            # Every reference is used once, given that a later oversize chunk with the same
            # reference replaces an earlier one.
            used = self.common["references"].setdefault((p["upper"], p["lower"]), set())
            while reference in used:
                reference = reference % 0xFFFF + 1
            used.add(reference)
            flags |= 0x800
            if draw(st.integers(0, 5)) or backtrace:
                oversize.append((p, reference, number, shift(item_data, len(backtrace)),
                                 backtrace + public, private, draw(dt.u(8))))
            else:
                # The oversize chunk is not there.
                values, later = [], []
            number, item_data, public, private = 0, b"", b"", b""
            stored_backtrace = b""
        else:
            item_data = shift(item_data, len(backtrace))
            stored_backtrace = backtrace
        inner = []
        if activity is not None:
            flags |= 1
            data += struct.pack("<Q", activity)
            inner.append(("Current activity identifier", dt.hex8(activity)))
        if private or (not use_oversize and draw(st.integers(0, 5)) == 0):
            flags |= 0x100
            data += struct.pack("<HH", private_offset & 0xFFFF, len(private))
            inner.append(("Private data range", len(private)))
        data += self.location_bytes(location)
        inner += self.location_lines(location)
        subsystem = draw(st.one_of(st.none(), st.integers(0, 9)))
        if subsystem is not None:
            flags |= 0x200
            data += struct.pack("<H", subsystem)
            inner.append(("Sub system identifier", subsystem))
        signpost = draw(dt.u(64))
        if kind == "signpost":
            data += struct.pack("<Q", signpost)
            inner.append(("Signpost identifier", dt.hex8(signpost)))
        ttl = draw(st.one_of(st.none(), dt.u(8)))
        if ttl is not None:
            flags |= 0x400
            data += bytes([ttl])
            inner.append(("Time to live (TTL)", ttl))
        if reference is not None:
            data += struct.pack("<H", reference)
            inner.append(("Data reference", f"0x{reference:04x}"))
        name = None
        if kind == "signpost" and draw(st.booleans()):
            name, name_data = self.name(location, flags)
            data += name_data
            flags |= 0x8000
            inner += [(label, dt.hex8(value) if index == 0 else f"0x{value:04x}")
                      for index, (label, value) in enumerate(zip(
                          ("Name string reference (lower 32-bit)",
                           "Name string reference (upper 16-bit)"),
                          struct.unpack("<IH" if len(name_data) == 6 else "<I", name_data)))]
        data += bytes([draw(dt.u(8)), number]) + item_data + stored_backtrace + public
        inner.append(("Number of data items", number))
        if frames and (reference is None or backtrace):
            inner += [("Number of identifiers", (len(backtrace) - 6 - 5 * len(frames)) // 16),
                      ("Number of frames", len(frames))]
        inner += later
        if subsystem is not None:
            inner.append(("Sub system identifier", subsystem))
        if kind == "log":
            record_type, log_type = 4, draw(st.sampled_from([0, 1, 2, 0x10, 0x11]))
        else:
            record_type = 6
            log_type = draw(st.sampled_from([4, 8, 12])) << 4 | draw(st.integers(0, 2))
        first, second = self.subsystem(p, subsystem)
        expected = self.entry(p, location, base, delta, thread, record_type, log_type, flags)
        expected.update(
            event_type="logEvent" if kind == "log" else "signpostEvent", sub_system=first,
            category=second, ttl=ttl or 0, activity_identifier=(activity or 0) & MASK,
            event_message=self.message(location, values))
        if frames:
            expected["frames"] = frames
        if kind == "log":
            expected["message_type"] = LOG_TYPES[log_type]
        else:
            expected.update(signpost_identifier=signpost, signpost_name=name,
                            signpost_scope=SCOPES[log_type >> 4],
                            signpost_type=SIGNPOST_TYPES[log_type & 15], message_type=None)
        wrapped = self.wrap(record_type, log_type, flags, location["reference"], thread, delta,
                            data, inner)
        return wrapped, private, expected

    def name(self, location, flags):
        draw = self.draw
        large = bool(flags & 0x20)
        if draw(st.integers(0, 5)) == 0:
            # The name itself is not stored.
            reference = draw(st.integers(1, (1 << 46) - 1 if large else (1 << 31) - 1))
            stored = self.strings.dsc.get(location["owner"])
            if location["kind"] in (4, 0x0C) and stored:
                reference = draw(st.sampled_from(
                    [image[0] for image in stored[1]
                     if 0 < image[0] < 1 << (47 if large else 31)] or [reference]))
            image = self.resolve(location["kind"], location["owner"], reference, True,
                                 location["image_offset"], location)
            data = struct.pack("<I", reference & 0x7FFFFFFF | 0x80000000)
            if large:
                data += struct.pack("<H", reference >> 31)
            segments = image[2] if image else None
            return None if segments is None else format_text(segments), data
        candidates = [(reference, segments) for reference, segments in location["candidates"]
                      if reference and (large or reference < 1 << 31)]
        if candidates and draw(st.integers(0, 5)):
            reference, segments = draw(st.sampled_from(candidates))
            name = format_text(segments)
        else:
            reference, name = 0, None
        data = struct.pack("<I", reference & 0x7FFFFFFF)
        if large:
            data += struct.pack("<H", reference >> 31)
        return name, data

    def backtrace(self):
        draw = self.draw
        identifiers = draw(st.lists(st.uuids(), max_size=3))
        indexes = draw(st.lists(st.one_of(
            st.just(255), st.integers(0, max(len(identifiers) - 1, 0))),
            min_size=1, max_size=4))
        if not identifiers:
            indexes = [255] * len(indexes)
        offsets = [draw(dt.u(32)) for _ in indexes]
        data = struct.pack("<HBBBB", 1, 0x12, len(identifiers), len(indexes), 0)
        data += b"".join(identifier.bytes for identifier in identifiers)
        data += struct.pack(f"<{len(offsets)}I", *offsets) + bytes(indexes)
        frames = [(uuid.UUID(int=0) if index == 255 else identifiers[index], offset)
                  for index, offset in zip(indexes, offsets)]
        return data, frames

    def activity(self, p, base, thread, delta, location, flags):
        draw = self.draw
        log_type = draw(st.sampled_from([1, 1, 3]))
        current = draw(st.one_of(st.none(), dt.u(64)))
        pid = draw(st.one_of(st.none(), dt.u(64)))
        other = draw(st.one_of(st.none(), dt.u(64)))
        data, inner = b"", []
        for label, value, flag in (("Current activity identifier", current, 1),
                                   ("Process identifier (PID)", pid, 0x10),
                                   ("Other activity identifier", other, 0x200)):
            if value is not None:
                flags |= flag
                data += struct.pack("<Q", value)
                inner.append((label, value if flag == 0x10 else dt.hex8(value)))
        flags |= draw(st.sampled_from([0, 0, 0x100]))
        new = 0
        if log_type != 3:
            new = draw(dt.u(64))
            data += struct.pack("<Q", new)
            inner.append(("New activity identifier", dt.hex8(new)))
        data += self.location_bytes(location)
        inner += self.location_lines(location)
        expected = self.entry(p, location, base, delta, thread, 2, log_type, flags)
        expected.update(
            event_type="activityCreateEvent" if log_type == 1 else "userActionEvent",
            activity_identifier=new & MASK, parent_activity_identifier=(other or 0) & MASK,
            creator_activity_identifier=(current or 0) if log_type == 1 else None,
            message_type=LOG_TYPES[log_type], event_message=self.message(location, []),
            sub_system=None, category=None)
        return self.wrap(2, log_type, flags, location["reference"], thread, delta,
                         data, inner), b"", expected

    def trace(self, p, base, thread, delta):
        draw = self.draw
        owner = self.identifiers[p["main"]]
        stored = self.strings.uuidtext.get(owner)
        candidates = [(reference, segments) for reference, segments in references(
            stored[0] if stored else []) if reference < 1 << 31]
        lower = draw(dt.u(32))
        if candidates:
            reference, segments = draw(st.sampled_from(candidates))
            image = (owner, stored[1], segments, 0)
        elif stored:
            reference = 0
            image = (owner, stored[1], None, 0)
            if self.lookup(stored[0], 0) is not None:
                return self.wrap(0, 0, 0, 0, thread, delta, b""), b"", None
        else:
            reference, image = draw(dt.u(31)), (owner, None, None, 0)
        location = dict(reference=reference, image=image, counter=lower)
        values, data, sizes = [], b"", b""
        for kind in operators(image[2] or []):
            size = draw(st.sampled_from([4, 8]))
            raw = draw(st.binary(min_size=size, max_size=size))
            number = int.from_bytes(raw, "little", signed=kind == "i")
            if kind == "s" or kind == "uuid":
                values = None
                break
            values.append({"bool": "true" if number else "false",
                           "x": f"{number:x}"}.get(kind, f"{number:d}"))
            data += raw
            sizes += bytes([size])
        if values is None:
            values, data, sizes = [], b"", b""
        inner = [("UUID entry load address (lower 32-bit)", dt.hex8(lower)),
                 ("Number of values", len(sizes))]
        data = struct.pack("<I", lower) + data + sizes + bytes([len(sizes)])
        expected = self.entry(p, location, base, delta, thread, 3, 0, 2)
        expected.update(event_type="traceEvent", message_type="Default",
                        event_message=self.message(location, values), activity_identifier=0,
                        sub_system=None, category=None)
        return self.wrap(3, 0, 2, reference, thread, delta, data, inner), b"", expected

    def wrap(self, record_type, log_type, flags, reference, thread, delta, data, inner=()):
        self.debug += [("Record type", named(record_type, RECORD_TYPE_NAMES)),
                       ("Log type", named(log_type, LOG_TYPE_NAMES)),
                       ("Format string reference", dt.hex8(reference)),
                       ("Thread identifier", thread),
                       ("Continous time (lower 32-bit)", delta & 0xFFFFFFFF),
                       ("Continous time (upper 16-bit)", delta >> 32),
                       ("Data size", len(data))]
        self.ranges += [len(self.debug) + index for index, pair in enumerate(inner)
                        if pair[0] == "Private data range"]
        self.debug += inner
        return align(struct.pack("<BBHIQIHH", record_type, log_type, flags, reference, thread,
                                 delta & 0xFFFFFFFF, delta >> 32, len(data)) + data)


def named(value, names):
    return f"0x{value:02x} ({names[value]})" if value in names else f"0x{value:02x}"


def flag_lines(flags):
    """Returns the lines that describe the flags of a tracepoint."""
    values = [value for value in FLAG_NAMES if flags & value]
    if flags & 0x000E in STRINGS_NAMES:
        values.append(flags & 0x000E)
    return {f"\t{FLAG_NAMES.get(value) or STRINGS_NAMES[value]} (0x{value:04x})"
            for value in values}


def common_lines(p, ttl):
    return [("proc_id (upper 64-bit)", p["upper"]), ("proc_id (lower 32-bit)", p["lower"]),
            ("Time to live (TTL)", ttl)]


def catalog_lines(model, identifiers):
    strings, processes, sub_chunks, earliest = model
    size = len(identifiers) * 16
    texts = len(align(b"".join(string.encode("utf-8") + b"\x00" for string in strings)))
    lines = [("Sub system strings offset", dt.hex8(size)),
             ("Process information entries offset", dt.hex8(size + texts)),
             ("Number of process information entries", len(processes)),
             ("Number of sub chunks", len(sub_chunks)),
             ("Earliest firehose timestamp", earliest),
             ("Earliest firehose timestamp", earliest)]
    for index, p in enumerate(processes):
        lines += [("Entry index", index), ("Main UUID index", p["main"])]
        if p["main"] >= 0:
            lines.append(("Main UUID", identifiers[p["main"]]))
        lines.append(("Shared-Cache Strings (dsc) UUID index", p["dsc"]))
        if p["dsc"] >= 0:
            lines.append(("Shared-Cache Strings (dsc) UUID", identifiers[p["dsc"]]))
        lines += common_lines(p, 0)[:2] + [
            ("Process identifier (PID)", p["pid"]),
            ("Effective user identifier (euid)", p["euid"]),
            ("Number of UUID information entries", len(p["images"])),
            ("Number of sub system entries", len(p["subsystems"]))]
    for start, end, size, indexes, string_offsets in sub_chunks:
        lines += [("Start time", start), ("End time", end), ("Uncompressed size", size),
                  ("Compression algorithm", 0x100), ("Number of indexes", len(indexes)),
                  ("Number of offsets", len(string_offsets)), ("Start time", start),
                  ("End time", end)]
    return lines


def common_header(p, ttl, rest):
    return struct.pack("<QIB", p["upper"], p["lower"], ttl) + rest


@st.composite
def archive(draw):
    """Draws a complete set of files."""
    strings, identifiers = draw(string_files())
    layout = draw(st.sampled_from(["system", "system", "archive", "live", "bare"]))
    if layout == "bare":
        strings = Strings()
    common = dict(boot=draw(st.uuids()), references={})
    header = dict(
        numerator=draw(st.sampled_from([1, 1, 125, 1000])),
        denominator=draw(st.sampled_from([1, 3, 24])), start=draw(dt.u(40)),
        timestamp=draw(st.integers(0, 2 ** 31 - 1)), zone=draw(st.integers(-840, 840)),
        dst=draw(st.integers(0, 1)), flags=draw(st.sampled_from([1, 3])),
        continuous=draw(dt.u(40)), build=draw(st.text(alphabet="0123456789AF", max_size=15)),
        model=draw(st.text(alphabet="MacBookPro1,4", max_size=31)),
        pid=draw(dt.u(32)), status=draw(dt.u(32)),
        path=draw(st.text(alphabet="/varEuropeAms", max_size=47)))
    timesync = None
    if layout != "bare" and draw(st.booleans()):
        others = draw(st.lists(st.uuids().filter(lambda u: u != common["boot"]), max_size=2))
        timesync = dict(
            numerator=draw(st.sampled_from([1, 125])), denominator=draw(st.sampled_from([1, 3])),
            timestamp=draw(st.integers(0, 2 ** 61)),
            records=draw(st.lists(st.tuples(
                st.one_of(dt.u(20), st.integers(1, 1 << 50)), st.integers(0, 2 ** 61)),
                max_size=4, unique_by=lambda r: r[0])),
            before=others[:1], after=others[1:], split=draw(st.booleans()),
            upper_case=draw(st.integers(0, 3)) == 0)
    entries, debug, body = [], [], b""
    number_of_chunks = 0
    for _ in range(draw(st.integers(1, 2))):
        model = draw(catalog(identifiers))
        data = catalog_data(model, identifiers)
        body += align(chunk(0x600B, data, 17))
        debug += [("Chunk tag", "0x0000600b (Catalog)"), ("Chunk data size", len(data))]
        debug += catalog_lines(model, identifiers)
        builder = Builder(draw, strings, identifiers, model, common)
        builder.debug = debug
        for _ in range(draw(st.integers(1, 2))):
            # The sizes are only known when the chunk set is complete.
            slots = [("Chunk tag", "0x0000600d (ChunkSet)"), None]
            position = len(debug)
            debug.extend(slots)
            content = b""
            sets = []
            for _ in range(draw(st.integers(1, 3))):
                number_of_chunks += 1
                content = align(content)
                before, data = draw_chunk(draw, builder, model, entries)
                content += before
                if debug[-1] is None:
                    # The oversize chunks are in an earlier chunk set.
                    debug.pop()
                    sets.append((position, content))
                    position, content = len(debug), b""
                    debug += slots
                    debug += builder.rest
                    builder.rest = []
                content = align(content) + data
            sets.append((position, content))
            for position, content in sets:
                if draw(st.booleans()):
                    content = align(content)
                if draw(st.booleans()):
                    data = lz4_data(content)
                else:
                    data = b"bv4-" + struct.pack("<I", len(content)) + content + b"bv4$"
                debug[position + 1] = ("Chunk data size", len(data))
                body += align(chunk(0x600D, data))
    return dict(strings=strings, identifiers=identifiers, common=common, header=header,
                timesync=timesync, body=body, entries=entries, debug=debug, layout=layout,
                chunks=number_of_chunks)


def lz4_data(content):
    """LZ4 block of literals and matches of zero runs, as an independent writer."""
    data, position = b"", 0
    literal_start = 0

    def sequence(literals, match, offset):
        length = len(literals)
        token = min(length, 15) << 4
        extra = b""
        if length >= 15:
            rest = length - 15
            extra = b"\xff" * (rest // 255) + bytes([rest % 255])
        if match is None:
            return bytes([token]) + extra + literals
        token |= min(match - 4, 15)
        tail = b""
        if match - 4 >= 15:
            rest = match - 4 - 15
            tail = b"\xff" * (rest // 255) + bytes([rest % 255])
        return bytes([token]) + extra + literals + struct.pack("<H", offset) + tail

    while position < len(content) - 13:
        byte = content[position]
        run = 0
        while (position + 1 + run < len(content) - 5 and
               content[position + 1 + run] == byte):
            run += 1
        if run >= 8 and position + 1 < len(content) - 12:
            data += sequence(content[literal_start:position + 1], run, 1)
            position += 1 + run
            literal_start = position
        else:
            position += 1
    data += sequence(content[literal_start:], None, None)
    return (b"bv41" + struct.pack("<II", len(content), len(data)) + data + b"bv4$")


def draw_chunk(draw, builder, model, entries):
    p = draw(st.sampled_from(model[1]))
    kind = draw(st.sampled_from(["firehose"] * 5 + ["state", "simple", "other"]))
    debug = builder.debug
    if kind == "other":
        data = draw(st.binary(max_size=20))
        debug += [("Chunk tag", "0x00006077"), ("Chunk data size", len(data))]
        return b"", chunk(0x6077, data)
    identifier, path = builder.process_image(p)
    if kind == "simple":
        subsystem, message = draw(TEXT), draw(TEXT)
        first, second = subsystem.encode("utf-8") + b"\x00", message.encode("utf-8") + b"\x00"
        log_type = draw(st.sampled_from(sorted(LOG_TYPES)))
        time, thread, address = draw(dt.u(50)), draw(dt.u(64)), draw(dt.u(64))
        sender, dsc = draw(st.uuids()), draw(st.uuids())
        data = common_header(p, 0, struct.pack("<BHQQQ", log_type, 0, time, thread, address))
        data += sender.bytes + dsc.bytes + struct.pack("<III", 0, len(first), len(second))
        data += first + second
        debug += [("Chunk tag", "0x00006004 (SimpleDump)"), ("Chunk data size", len(data)),
                  *common_lines(p, 0), ("Log type", named(log_type, LOG_TYPE_NAMES)),
                  ("Continous time", time), ("Thread identifier", thread),
                  ("Sender image identifier", sender), ("DSC identifier", dsc),
                  ("Sub system string size", len(first)),
                  ("Message string size", len(second)), ("Message string", message)]
        entries.append(dict(
            boot_identifier=builder.common["boot"], event_message=message,
            event_type="logEvent", mach_timestamp=time, time=time,
            message_type=LOG_TYPES[log_type], process_identifier=p["pid"],
            process_image_identifier=identifier, process_image_path=path, sub_system=subsystem,
            sender_image_identifier=sender, sender_program_counter=address,
            thread_identifier=thread, trace_identifier=0, frames=[(sender, address)]))
        return b"", chunk(0x6004, data)
    if kind == "state":
        state_type = draw(st.sampled_from([1, 2, 3, 3]))
        title = draw(TEXT)
        library, decoder, state, value = draw(st.sampled_from([
            ("network", "in_addr", bytes([127, 0, 0, 1]), "127.0.0.1"),
            ("other", "thing", b"\x01\x02", "<decode: unsupported decoder: other:thing>"),
            ("mdns", "yesno", b"\x01", "yes"), ("mdns", "yesno", b"\x00", "no")]))
        remnant = draw(st.sampled_from([b"", b"\xff\xfe"]))
        time, activity, sender = draw(dt.u(50)), draw(dt.u(64)), draw(st.uuids())
        data = common_header(p, 0, struct.pack("<BHQQ", 0, 0, time, activity)) + sender.bytes
        data += struct.pack("<II", state_type, len(state))
        for text in (library, decoder):
            text = text.encode("utf-8") + b"\x00" + remnant
            data += text + bytes(64 - len(text))
        text = title.encode("utf-8")
        data += text + bytes(64 - len(text)) + state
        debug += [("Chunk tag", "0x00006003 (StateDump)"), ("Chunk data size", len(data)),
                  *common_lines(p, 0), ("Continous time", time),
                  ("Activity identifier", dt.hex8(activity)),
                  ("Sender image identifier", sender), ("State data type", state_type),
                  ("State data size", len(state)), ("Title", title)]
        entries.append(dict(
            boot_identifier=builder.common["boot"], event_type="stateEvent",
            event_message=f"{title}\n{value}" if state_type == 3 else "",
            activity_identifier=activity & MASK, mach_timestamp=time, time=time,
            process_identifier=p["pid"], process_image_identifier=identifier,
            process_image_path=path, sender_image_identifier=sender, trace_identifier=0,
            frames=[(sender, 0)]))
        return b"", chunk(0x6003, data)
    base = draw(dt.u(50))
    builder.debug, builder.ranges = [], []
    oversize, parts, private, expected = [], [], b"", []
    tracepoints = []
    for _ in range(draw(st.integers(1, 4))):
        mark = len(oversize)
        data, secret, entry = builder.tracepoint(p, base, 0, oversize)
        tracepoints.append((data, secret, entry, mark, len(oversize)))
    public = b""
    # The private data range of a tracepoint is a virtual offset.
    total = sum(len(secret) for _, secret, _, _, _ in tracepoints)
    virtual = 4096 - total
    offset = virtual
    for data, secret, entry, _, _ in tracepoints:
        flags = struct.unpack_from("<H", data, 2)[0]
        if data[0] in (4, 6) and flags & 0x100:
            position = 24 + (8 if flags & 1 else 0)
            data = data[:position] + struct.pack("<H", offset) + data[position + 2:]
            index = builder.ranges.pop(0)
            builder.debug[index] = (
                "Private data range", f"offset: 0x{offset:04x}, size: {len(secret):d}")
        offset += len(secret)
        private += secret
        public += data
        if entry is not None:
            expected.append(entry)
    gap = draw(st.sampled_from([b"", b"", b"\xaa" * 8]))
    stream_type = draw(st.sampled_from([0, 1, 2, 4, 4, 3, 200]))
    firehose_ttl, collapsed = draw(dt.u(8)), draw(st.integers(0, 1))
    result = common_header(p, firehose_ttl, struct.pack(
        "<BHHHHBBQ", collapsed, 0, len(public) + 16, virtual, 0,
        stream_type, 0, base))
    result += public + gap + private
    # The oversize chunks come first.
    before = b""
    lines = []
    for process_model, reference, number, items, values, secret, ttl in oversize:
        data = common_header(process_model, ttl, struct.pack(
            "<BHQIHHBB", 0, 0, base, reference, 2 + len(items) + len(values), len(secret), 0,
            number))
        data += items + values + secret
        before = align(before) + chunk(0x6002, data)
        lines += [("Chunk tag", "0x00006002 (Oversize)"), ("Chunk data size", len(data))]
        lines += common_lines(process_model, ttl) + [
            ("Continous time", base), ("Data reference", dt.hex8(reference)),
            ("Data size", 2 + len(items) + len(values)), ("Private data size", len(secret)),
            ("Number of data items", number)]
    rest = [("Chunk tag", "0x00006001 (Firehose)"), ("Chunk data size", len(result))]
    rest += common_lines(p, firehose_ttl) + [
        ("Collapsed", collapsed), ("Public data size", len(public) + 16),
        ("Private data virtual offset", f"0x{virtual:04x}"),
        ("Stream type", named(stream_type, STREAM_TYPE_NAMES)), ("Base continuous time", base),
        ("Base continuous time", base)] + builder.debug
    builder.debug = debug
    debug += lines
    if before and draw(st.booleans()):
        debug.append(None)
        builder.rest = rest
    else:
        debug += rest
    for entry in expected:
        entries.append(entry)
    return before, chunk(0x6001, result)


def header_lines(model):
    header = model["header"]
    return [("Chunk tag", "0x00001000 (Header)"),
            ("Chunk data size", len(header_data(model)) - 16),
            ("Timebase numerator", header["numerator"]),
            ("Timebase denominator", header["denominator"]), ("Start time", header["start"]),
            ("Time zone offset", header["zone"]), ("Daylight savings flag", header["dst"]),
            ("Sub chunk tag", "0x6100"), ("Sub chunk data size", 8),
            ("Sub chunk tag", "0x6101"), ("Sub chunk data size", 56),
            ("Build version", header["build"]), ("Hardware model", header["model"]),
            ("Sub chunk tag", "0x6102"), ("Sub chunk data size", 24),
            ("Boot identifier", model["common"]["boot"]),
            ("logd process identifier (PID)", header["pid"]),
            ("logd exit status", header["status"]),
            ("Sub chunk tag", "0x6103"), ("Sub chunk data size", 48),
            ("Path", header["path"]), ("Start time", header["start"]),
            ("Continuous sub chunk time", header["continuous"])]


def header_data(model):
    header = model["header"]
    data = struct.pack("<IIQiIIiII", header["numerator"], header["denominator"],
                       header["start"], header["timestamp"], 0, 0, header["zone"],
                       header["dst"], header["flags"])
    data += struct.pack("<IIQ", 0x6100, 8, header["continuous"])
    data += struct.pack("<IIII16s32s", 0x6101, 56, 0, 0, header["build"].encode("ascii"),
                        header["model"].encode("ascii"))
    data += struct.pack("<II", 0x6102, 24) + model["common"]["boot"].bytes
    data += struct.pack("<II", header["pid"], header["status"])
    data += struct.pack("<II48s", 0x6103, 48, header["path"].encode("ascii"))
    return chunk(0x1000, data, 17)


def message_file(messages):
    """Returns a file with a simple dump chunk for each of the messages."""
    model = dict(common=dict(boot=uuid.UUID(int=5)), header=dict(
        numerator=1, denominator=1, start=0, timestamp=0, zone=0, dst=0, flags=1, continuous=0,
        build="1", model="M", pid=1, status=0, path="p"))
    p = dict(upper=1, lower=2, main=-1, dsc=-1, pid=3, euid=4, images=[], subsystems=[])
    data = header_data(model) + align(chunk(
        0x600B, catalog_data((["x"], [p], [], 0), [uuid.UUID(int=7)]), 17))
    content = b""
    for index, message in enumerate(messages):
        text = message.encode("utf-8") + b"\x00"
        content = align(content) + chunk(0x6004, common_header(p, 0, struct.pack(
            "<BHQQQ", 0, 0, index, 1, 2)) + bytes(32) + struct.pack(
                "<III", 0, 2, len(text)) + b"s\x00" + text)
    return data + align(chunk(0x600D, b"bv4-" + struct.pack("<I", len(content)) + content +
                              b"bv4$"))


def timesync_files(model):
    """Returns {name: data}."""
    timesync = model["timesync"]

    def boot(identifier, timestamp):
        return (b"\xb0\xbb" + struct.pack("<HI", 48, 0) + identifier.bytes + struct.pack(
            "<IIqiI", timesync["numerator"], timesync["denominator"], timestamp, 0, 0))

    def sync(kernel, timestamp):
        return b"Ts" + struct.pack("<HIQqiI", 32, 0, kernel, timestamp, 0, 0)

    before = b"".join(boot(identifier, 7) + sync(1, 99) for identifier in timesync["before"])
    after = b"".join(boot(identifier, 8) + sync(3, 77) for identifier in timesync["after"])
    own = boot(model["common"]["boot"], timesync["timestamp"])
    own += b"".join(sync(*record) for record in timesync["records"])
    if timesync["split"]:
        files = {"0000000000000001.timesync": before, "0000000000000002.timesync": own + after}
    else:
        files = {"0000000000000001.timesync": before + own + after}
    if timesync.get("upper_case"):
        files = {name.upper(): data for name, data in files.items()}
    files["readme.txt"] = b"not a timesync file"
    return {name: data for name, data in files.items() if data}
