"""Writer of OLE compound files and Windows shortcut (LNK) data."""

import struct

FREE, END, FAT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD
NONE = 0xFFFFFFFF


def _key(name):
    return (len(name), name.upper())


def _chain(start, count):
    return list(range(start + 1, start + count)) + [END] if count else []


def write(streams):
    """Returns a version 3 compound file with streams [(name, data)] in the root."""
    mini_data, mini_fat = b"", []
    entries = []
    large = []
    for name, data in streams:
        if len(data) >= 4096:
            large.append((len(entries), data))
            entries.append([name, 2, 0, len(data)])
        elif data:
            start = len(mini_fat)
            count = (len(data) + 63) // 64
            mini_fat.extend(_chain(start, count))
            mini_data += data + b"\0" * (-len(data) % 64)
            entries.append([name, 2, start, len(data)])
        else:
            entries.append([name, 2, END, 0])

    sectors, fat = [], []

    def add(data):
        if not data:
            return END
        start = len(sectors)
        data += b"\0" * (-len(data) % 512)
        count = len(data) // 512
        sectors.extend(data[i * 512:i * 512 + 512] for i in range(count))
        fat.extend(_chain(start, count))
        return start

    for index, data in large:
        entries[index][2] = add(data)
    mini_start = add(mini_data)
    mini_fat_data = struct.pack(f"<{len(mini_fat)}I", *mini_fat)
    mini_fat_data += b"\xff" * (-len(mini_fat_data) % 512)
    mini_fat_sectors = len(mini_fat_data) // 512
    mini_fat_start = add(mini_fat_data)

    # Directory: a balanced tree of black entries is not required by readers.
    order = sorted(range(len(entries)), key=lambda i: _key(entries[i][0]))
    left, right = {}, {}

    def tree(items):
        if not items:
            return NONE
        middle = len(items) // 2
        node = items[middle]
        left[node] = tree(items[:middle])
        right[node] = tree(items[middle + 1:])
        return node + 1

    child = tree(order)

    def directory_entry(name, kind, lower, higher, sub, start, size):
        encoded = name.encode("utf-16-le") + b"\0\0" if name else b""
        return struct.pack("<64sHBB3I16sIQQIQ", encoded, len(encoded), kind, 1,
                           lower, higher, sub, b"\0" * 16, 0, 0, 0, start, size)

    directory = directory_entry("Root Entry", 5, NONE, NONE, child, mini_start,
                                len(mini_data))
    for index, (name, kind, start, size) in enumerate(entries):
        directory += directory_entry(name, kind, left[index], right[index], NONE,
                                     start, size)
    while len(directory) % 512:
        directory += directory_entry("", 0, NONE, NONE, NONE, 0, 0)
    directory_start = add(directory)

    fat_sectors = 1
    while (len(sectors) + fat_sectors) > fat_sectors * 128:
        fat_sectors += 1
    if fat_sectors > 109:
        raise ValueError("too large")
    fat_start = len(sectors)
    fat.extend([FAT] * fat_sectors)
    fat.extend([FREE] * (fat_sectors * 128 - len(fat)))
    fat_data = struct.pack(f"<{len(fat)}I", *fat)
    sectors.extend(fat_data[i * 512:i * 512 + 512] for i in range(fat_sectors))

    difat = [fat_start + i for i in range(fat_sectors)]
    difat += [FREE] * (109 - fat_sectors)
    header = struct.pack(
        "<8s16sHHHHHHIIIIIIIIII109I", b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", b"\0" * 16,
        0x3E, 3, 0xFFFE, 9, 6, 0, 0, 0, fat_sectors, directory_start, 0, 4096,
        mini_fat_start if mini_fat else END, mini_fat_sectors, END, 0, *difat)
    return header + b"".join(sectors)


LNK_GUID = bytes.fromhex("0114020000000000c000000000000046")


def lnk(description="", arguments="", file_size=0, times=(0, 0, 0), blocks=()):
    """Returns LNK data (including its class identifier)."""
    flags = 0x80
    if description:
        flags |= 0x04
    if arguments:
        flags |= 0x20
    data = struct.pack("<I16sII3QIiIHHII", 0x4C, LNK_GUID, flags, 0x20, *times,
                       file_size, 0, 1, 0, 0, 0, 0)
    for text in (description, arguments):
        if text:
            encoded = text.encode("utf-16-le")
            data += struct.pack("<H", len(encoded) // 2) + encoded
    for signature, contents in blocks:
        data += struct.pack("<II", len(contents) + 8, signature) + contents
    return data + b"\0\0\0\0"
