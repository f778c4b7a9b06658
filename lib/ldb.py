"""Writer of LevelDB files, from the published format (doc/log_format.md and
doc/table_format.md), independent of the code under test."""

import struct

import snappy
import zstd

PAGE = 32768


def varint(value):
    data = bytearray()
    while value > 127:
        data.append(128 + value % 128)
        value //= 128
    data.append(value)
    return bytes(data)


def slice_(data):
    return varint(len(data)) + data


def log_file(records, checksum=0x12345678):
    """Returns the file data and, per record, the offset of its first block and
    the list of its blocks as (type, data)."""
    data = bytearray()
    layout = []
    for record in records:
        position = 0
        begin = True
        blocks = []
        offset = None
        while begin or position < len(record):
            left = PAGE - len(data) % PAGE
            if left < 7:
                data.extend(bytes(left))
                left = PAGE
            fragment = record[position:position + left - 7]
            position += len(fragment)
            end = position == len(record)
            kind = {(True, True): 1, (True, False): 2, (False, False): 3,
                    (False, True): 4}[begin, end]
            if offset is None:
                offset = len(data)
            data.extend(struct.pack("<IHB", checksum, len(fragment), kind))
            data.extend(fragment)
            blocks.append((kind, fragment))
            begin = False
        layout.append((offset, blocks))
    return bytes(data), layout


def table_contents(entries, interval=16, share=None):
    """entries: list of (key with suffix, value)."""
    data = bytearray()
    restarts = [0]
    previous = b""
    for index, (key, value) in enumerate(entries):
        shared = 0
        if index and index % interval == 0:
            restarts.append(len(data))
        elif index:
            limit = min(len(previous), len(key))
            while shared < limit and previous[shared] == key[shared]:
                shared += 1
            if share is not None:
                shared = min(shared, share)
        data += varint(shared) + varint(len(key) - shared) + varint(len(value))
        data += key[shared:] + value
        previous = key
    data += b"".join(struct.pack("<I", r) for r in restarts)
    return bytes(data + struct.pack("<I", len(restarts)))


def block(contents, compression):
    if compression == 1:
        contents = snappy.compress(contents)
    elif compression == 2:
        contents = zstd.compress(contents)
    return contents


def suffix(sequence, kind):
    return struct.pack("<Q", sequence << 8 | kind)


def table_file(blocks, interval=16, share=None, compression=(0,), gap=0,
               metaindex=None, signature=b"\x57\xfb\x80\x8b\x24\x75\x47\xdb",
               index_compression=0, prefix=b""):
    """blocks: list of lists of (user key, sequence, type, value)."""
    data = bytearray(prefix)
    handles = []
    for number, entries in enumerate(blocks):
        kind = compression[number % len(compression)]
        contents = block(table_contents(
            [(k + suffix(s, t), v) for k, s, t, v in entries], interval, share), kind)
        last = entries[-1] if entries else (b"", 0, 1, b"")
        handles.append((last[0] + suffix(last[1], last[2]),
                        varint(len(data)) + varint(len(contents))))
        data += contents + struct.pack("<BI", kind, 0xCAFEF00D) + bytes(gap)
    if metaindex is None:
        metaindex = table_contents([])
    meta_handle = varint(len(data)) + varint(len(metaindex))
    data += metaindex + struct.pack("<BI", 0, 0xCAFEF00D)
    contents = block(table_contents(handles, interval, share), index_compression)
    index_handle = varint(len(data)) + varint(len(contents))
    data += contents + struct.pack("<BI", index_compression, 0xCAFEF00D)
    footer = (meta_handle + index_handle).ljust(40, b"\0")
    return bytes(data) + footer + signature
