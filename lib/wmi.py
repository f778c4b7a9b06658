"""Independent writer of WMI CIM repository files (cim.rep, index.btr, objects.data, *.map)."""

import hashlib
import struct

PAGE = 8192
UNAVAILABLE = 0xFFFFFFFF

TYPES = {"sint16": 2, "sint32": 3, "real32": 4, "real64": 5, "string": 8, "boolean": 11,
         "object": 13, "sint8": 16, "uint8": 17, "uint16": 18, "uint32": 19, "sint64": 20,
         "uint64": 21, "datetime": 101, "ref": 102}
FORMATS = {2: "<h", 3: "<i", 4: "<f", 5: "<d", 11: "<H", 16: "<b", 17: "<B", 18: "<H",
           19: "<I", 20: "<q", 21: "<Q"}
SIZES = {number: struct.calcsize(text) for number, text in FORMATS.items()}
STRINGS = (8, 101, 102)
STRING_ARRAY = 0x2008
PREDEFINED = {"key": 1, "read": 3, "write": 4, "provider": 6, "dynamic": 7, "type": 10}


def name_hash(version, name):
    data = name.upper().encode("utf-16-le")
    digest = hashlib.sha256(data) if version == "2.2" else hashlib.md5(data)
    return digest.hexdigest().upper()


def cim_string(text, flags=0):
    return bytes([flags]) + text.encode("cp1252") + b"\x00"


class Heap:
    """Values data."""

    def __init__(self):
        self.data = bytearray()

    def add(self, data):
        offset = len(self.data)
        self.data += data
        return offset

    def string(self, text):
        return self.add(cim_string(text))


def fixed(number, value):
    if number == 11:
        value = 0xFFFF if value else 0
    return struct.pack(FORMATS[number], value)


def name_reference(heap, name, predefined):
    if predefined and name in PREDEFINED:
        return 0x80000000 | PREDEFINED[name]
    return heap.string(name)


def qualifiers_data(heap, qualifiers):
    """qualifiers: (name, predefined, unknown, type number, value)."""
    result = b""
    for name, predefined, unknown, number, value in qualifiers:
        result += struct.pack("<IBI", name_reference(heap, name, predefined), unknown, number)
        if number in FORMATS:
            result += fixed(number, value)
        elif number == 8:
            result += struct.pack("<I", heap.string(value))
        else:
            result += struct.pack("<I", heap.add(struct.pack("<I", 0)))
    return result


def qualifier_value(number, value):
    if number == 11:
        return bool(value)
    if number in FORMATS:
        return struct.unpack(FORMATS[number], fixed(number, value))[0]
    return value if number == 8 else None


def class_block(item):
    """item: name, super, qualifiers, properties, unknown, default, methods."""
    heap = Heap()
    if item["pad"]:
        heap.add(b"\x01" * item["pad"])
    name_offset = heap.string(item["name"])
    super_block = cim_string(item["super"]) if item["super"] else b""
    qualifiers = qualifiers_data(heap, item["qualifiers"])
    descriptors = b""
    for prop in item["properties"]:
        at = name_reference(heap, prop["name"], prop["predefined"])
        block = qualifiers_data(heap, prop["qualifiers"])
        definition = heap.add(struct.pack(
            "<IHIII", prop["type"], prop["index"], prop["offset"], prop["level"],
            len(block) + 4) + block)
        descriptors += struct.pack("<II", at, definition)
    data = struct.pack("<BII", item["unknown"], name_offset, len(item["default"]))
    data += struct.pack("<I", len(super_block) + 4) + super_block
    data += struct.pack("<I", len(qualifiers) + 4) + qualifiers
    data += struct.pack("<I", len(item["properties"])) + descriptors + item["default"]
    data += struct.pack("<I", len(heap.data) | 0x80000000) + bytes(heap.data)
    return data + item["methods"]


def class_record(item):
    text = item["super"] or ""
    block = class_block(item)
    return (struct.pack("<I", len(text)) + text.encode("utf-16-le") +
            struct.pack("<QI", item["time"], len(block) + 4) + block)


def chain(classes, name):
    """Class definitions from the base class to the class."""
    result = []
    while name:
        item = classes[name.upper()]
        result.insert(0, item)
        name = item["super"]
    return result


def value_map(items):
    """Properties of a chain of class definitions: (lower name, name, type, offset)."""
    result = {}
    for item in items:
        for prop in item["properties"]:
            if any(q[0].lower() == "type" for q in prop["qualifiers"]):
                result[prop["name"].lower()] = (prop["name"], prop["type"], prop["offset"])
    return result


def values_size(properties):
    if not properties:
        return 0
    _, number, offset = max(properties.values(), key=lambda prop: prop[2])
    return offset + SIZES.get(number, 4)


def instance_block(instance, items):
    """instance: values (lower name -> value), unknown, qualifiers, dynamic, state, trailing."""
    heap = Heap()
    class_name = heap.string(items[-1]["name"])
    properties = value_map(items)
    values = bytearray(instance["fill"] * values_size(properties))
    for lower, (_, number, offset) in properties.items():
        value = instance["values"][lower]
        if number in FORMATS:
            data = fixed(number, value)
        elif value is None:
            data = struct.pack("<I", 0)
        elif number in STRINGS:
            data = struct.pack("<I", heap.string(value))
        elif number == STRING_ARRAY:
            offsets = [heap.string(text) for text in value]
            data = struct.pack("<I", heap.add(struct.pack(
                f"<I{len(offsets)}I", len(offsets), *offsets)))
        else:
            data = struct.pack("<I", heap.add(struct.pack("<I", 0)))
        values[offset:offset + len(data)] = data
    bits = (len(properties) + 3) // 4
    state = (instance["state"] * (bits + 1))[:bits]
    result = struct.pack("<IB", class_name, instance["unknown"]) + state + bytes(values)
    result += struct.pack("<I", len(instance["qualifiers"]) + 4) + instance["qualifiers"]
    if instance["dynamic"] is None:
        result += b"\x01"
    else:
        result += b"\x02" + struct.pack("<I", len(instance["dynamic"]))
        for data in instance["dynamic"]:
            result += struct.pack("<I", len(data) + 4) + data
    return result + struct.pack("<I", instance["offset"]) + bytes(heap.data)


def instance_record(version, instance, items):
    block = instance_block(instance, items)
    return (name_hash(version, items[-1]["name"]).encode("utf-16-le") +
            struct.pack("<QQI", *instance["times"], len(block) + 4) + block)


def instance_values(instance, items):
    """What the reader is expected to return: name -> value."""
    result = {}
    for lower, (name, number, _) in value_map(items).items():
        value = instance["values"][lower]
        if number in FORMATS:
            value = qualifier_value(number, value)
        elif number not in STRINGS and number != STRING_ARRAY:
            value = None
        result[name] = value
    return result


# Index binary-tree file.

def page_size(keys):
    """Size of a page body with the keys."""
    values = {segment for key in keys for segment in key}
    return (4 + 4 * len(keys) + 4 * (len(keys) + 1) + 2 * len(keys) + 2 +
            sum(2 + 2 * len(key) for key in keys) + 2 + 2 * len(values) + 2 +
            sum(len(value) + 1 for value in values))


def index_page(number, keys, sub_pages, unknown, trailing=b"\x00", reverse=False,
               page_type=0xACCC, root=0):
    """An index page; sub_pages has one more entry than keys."""
    header = struct.pack("<IIII", page_type, number, unknown, root)
    segments = []
    for key in keys:
        for segment in key:
            if segment not in segments:
                segments.append(segment)
    if reverse:
        segments.reverse()
    heap = bytearray()
    offsets = []
    for segment in segments:
        offsets.append(len(heap))
        heap += segment.encode("ascii") + b"\x00"
    key_data = []
    key_offsets = []
    for key in keys:
        key_offsets.append(len(key_data))
        key_data += [len(key)] + [segments.index(segment) for segment in key]
    body = struct.pack("<I", len(keys)) + struct.pack(f"<{len(keys)}I", *range(len(keys)))
    body += struct.pack(f"<{len(keys) + 1}I", *sub_pages)
    body += struct.pack(f"<{len(keys)}H", *key_offsets)
    body += struct.pack(f"<H{len(key_data)}H", len(key_data), *key_data)
    body += struct.pack(f"<H{len(offsets)}H", len(offsets), *offsets)
    body += struct.pack("<H", len(heap)) + bytes(heap)
    data = header + body
    if len(data) > PAGE:
        raise ValueError("index page too large")
    fields = {"keys": key_offsets, "key_data": key_data, "values": segments,
              "offsets": offsets, "heap": bytes(heap), "sub_pages": list(sub_pages),
              "body": body}
    return data + (trailing * PAGE)[:PAGE - len(data)], fields


def map_section(version, sequence, pages, entries, unknown_table, extra=0, number=0):
    """One header, mapping table, unknown table and footer."""
    if version == 1:
        data = struct.pack("<III", 0xABCD, sequence, pages)
        data += struct.pack(f"<I{len(entries)}I", len(entries), *entries)
    else:
        data = struct.pack("<IIIII", 0xABCD, sequence, (number + 1) & 0xFFFFFFFF, number, pages)
        data += struct.pack("<I", len(entries))
        for index, entry in enumerate(entries):
            data += struct.pack("<IIIIII", entry, *[
                (extra * 7 + index * 5 + step) & 0xFFFFFFFF for step in range(5)])
    data += struct.pack(f"<I{len(unknown_table)}I", len(unknown_table), *unknown_table)
    return data + struct.pack("<I", 0xDCBA)


def objects_pages(groups):
    """Pages of groups of records: (identifier, data, checksum).

    Returns a list of (mapped page number of each group) and the pages.
    """
    pages = []
    numbers = []
    for group in groups:
        numbers.append(len(pages))
        data = bytearray()
        offset = 16 * (len(group) + 1)
        body = bytearray()
        for identifier, record, checksum in group:
            data += struct.pack("<IIII", identifier, offset + len(body), len(record), checksum)
            body += record
        data += b"\x00" * 16 + body
        for start in range(0, len(data), PAGE):
            pages.append(bytes(data[start:start + PAGE]).ljust(PAGE, b"\x00"))
    return numbers, pages


def place(pages, order, total, filler):
    """Physical file and mapping table for the pages.

    order: physical page number of every mapped page, distinct and below total.
    """
    result = [filler] * total
    for page, number in zip(pages, order):
        result[number] = page
    return b"".join(result)


# Repository (cim.rep) file.

class Node:
    """A node: fields are integers, bytes or other nodes (stored as their offset) or None."""

    def __init__(self, *fields, footer=b"\x00" * 12, pad=False):
        self.fields = list(fields)
        self.footer = footer
        self.pad = pad

    def data(self, offsets):
        result = b""
        for field in self.fields:
            if isinstance(field, bytes):
                result += field
            elif isinstance(field, int):
                result += struct.pack("<I", field)
            else:
                result += struct.pack("<I", offsets.get(id(field), 0) if field else 0)
        if self.pad:
            result += b"\x00" * (-len(result) % 4)
        return result + self.footer


def rep_file(nodes, bins, flags, trailing, header):
    """nodes: in file order; bins: numbers of cells after which a node bin ends.

    header: system class node, root namespace node (or a cell number) and 7 other values.
    Returns the data, the offsets of the nodes and the cell offsets and sizes.
    """
    sizes = [4 + len(node.data({})) + len(extra) for node, extra in zip(nodes, trailing)]
    offsets = {}
    cells = []
    bin_starts = []
    at = 40
    for number, (node, size) in enumerate(zip(nodes, sizes)):
        if number in bins and number:
            bin_starts.append(at)
            at += 4
        offsets[id(node)] = at + 4
        cells.append((at, size))
        at += size
    ends = bin_starts + [at + 0x1000]
    result = bytearray()
    numbers = [entry if isinstance(entry, int) else nodes.index(entry) for entry in header[:2]]
    result += struct.pack("<10I", *numbers, at, *header[2:8], ends[0])
    for number, (node, size) in enumerate(zip(nodes, sizes)):
        if number in bins and number:
            position = bin_starts.index(len(result))
            result += struct.pack("<I", ends[position + 1] - len(result))
        result += struct.pack("<I", size | flags[number % len(flags)])
        result += node.data(offsets) + trailing[number]
    return bytes(result), offsets, cells
