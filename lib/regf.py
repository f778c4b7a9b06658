"""Independent writer of Windows NT Registry files (REGF)."""

import struct


def lh_hash(name):
    result = 0
    for character in name.upper():
        result = (result * 37 + ord(character)) & 0xFFFFFFFF
    return result


class Hive:
    """Cells of one hive bin."""

    def __init__(self):
        self.data = bytearray(32)

    def cell(self, data):
        at = len(self.data)
        size = (4 + len(data) + 7) & ~7
        self.data += struct.pack("<i", -size) + data + bytes(size - 4 - len(data))
        return at

    def patch(self, at, position, value):
        struct.pack_into("<I", self.data, at + 4 + position, value)

    def value(self, name, kind, data):
        encoded, flags = encode_name(name)
        inline = len(data) <= 4
        if inline:
            offset, = struct.unpack("<I", data.ljust(4, b"\x00"))
        else:
            offset = self.cell(data)
        size = len(data) | (0x80000000 if inline else 0)
        return self.cell(b"vk" + struct.pack("<HIIIHH", len(encoded), size, offset, kind, flags,
                                             0) + encoded)

    def key(self, item, parent, security, root=False):
        """item: {"name", "time", "keys": [...], "values": [(name, type, data)], "list"}."""
        encoded, flags = encode_name(item["name"])
        flags = (0x20 if flags else 0) | (0x0C if root else 0)
        keys = item["keys"]
        values = item["values"]
        at = self.cell(b"nk" + struct.pack(
            "<HQIIIIIIIIIIIIIIIHH", flags, item["time"], 0, parent, len(keys), 0, 0xFFFFFFFF,
            0xFFFFFFFF, len(values), 0xFFFFFFFF, security, 0xFFFFFFFF,
            max([2 * len(key["name"]) for key in keys], default=0), 0,
            max([2 * len(value[0]) for value in values], default=0),
            max([len(value[2]) for value in values], default=0), 0, len(encoded), 0) + encoded)
        if values:
            offsets = [self.value(*value) for value in values]
            self.patch(at, 40, self.cell(struct.pack(f"<{len(offsets)}I", *offsets)))
        if keys:
            offsets = [self.key(key, at, security) for key in keys]
            if item["list"] == "li":
                data = b"li" + struct.pack("<H", len(keys))
                data += struct.pack(f"<{len(offsets)}I", *offsets)
            else:
                data = item["list"].encode("ascii") + struct.pack("<H", len(keys))
                for key, offset in zip(keys, offsets):
                    digest = struct.pack("<I", lh_hash(key["name"]))
                    if item["list"] == "lf":
                        digest = key["name"].encode("utf-8")[:4].ljust(4, b"\x00")
                    data += struct.pack("<I", offset) + digest
            self.patch(at, 28, self.cell(data))
        return at


def encode_name(name):
    try:
        return name.encode("ascii"), 1
    except UnicodeEncodeError:
        return name.encode("utf-16-le"), 0


def build(root, time=0, minor=3):
    """A hive with the root key."""
    hive = Hive()
    descriptor = bytes.fromhex("0100048000000000000000000000000000000000")
    security = hive.cell(b"sk" + struct.pack("<HIIII", 0, 0, 0, 1, len(descriptor)) + descriptor)
    hive.patch(security, 4, security)
    hive.patch(security, 8, security)
    at = hive.key(root, 0, security, root=True)
    size = (len(hive.data) + 4095) & ~4095
    unused = size - len(hive.data)
    if unused:
        hive.data += struct.pack("<i", unused) + bytes(unused - 4)
    struct.pack_into("<4sIIQQI", hive.data, 0, b"hbin", 0, size, 0, time, 0)
    header = bytearray(4096)
    struct.pack_into("<4sIIQIIIIIII", header, 0, b"regf", 1, 1, time, 1, minor, 0, 1, at, size, 1)
    checksum = 0
    for number in struct.unpack_from("<127I", header, 0):
        checksum ^= number
    struct.pack_into("<I", header, 508, checksum)
    return bytes(header + hive.data)
