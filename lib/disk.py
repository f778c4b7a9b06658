"""Writes disk images with partitions."""

import struct
import zlib

import ext2

SECTOR = 512
FIRST = 64
# Linux file system data.
TYPE = bytes.fromhex("af3dc60f838472478e793d69d8477de4")


def partitions(trees, gaps):
    """The start and size in sectors and the data of every file system."""
    result = []
    start = FIRST
    for tree, gap in zip(trees, gaps):
        writer = ext2.Writer()
        writer.add_directory(2, 2, tree)
        data, size = writer.image()
        start += gap
        result.append((start, size // SECTOR, data))
        start += size // SECTOR
    return result, start + 64


def mbr(path, trees, gaps):
    parts, total = partitions(trees, gaps)
    sector = bytearray(SECTOR)
    for number, (start, size, _) in enumerate(parts):
        struct.pack_into("<B3sB3sII", sector, 446 + number * 16, 0, b"\0\0\0", 0x83,
                         b"\0\0\0", start, size)
    sector[510:] = b"\x55\xaa"
    store(path, parts, total, {0: bytes(sector)})


def gpt(path, trees, gaps):
    parts, total = partitions(trees, gaps)
    sector = bytearray(SECTOR)
    struct.pack_into("<B3sB3sII", sector, 446, 0, b"\0\2\0", 0xEE, b"\xff\xff\xff", 1,
                     total - 1)
    sector[510:] = b"\x55\xaa"
    entries = b""
    for number, (start, size, _) in enumerate(parts):
        entries += TYPE + bytes([number + 1]) * 16 + struct.pack(
            "<QQQ72s", start, start + size - 1, 0, f"part {number}".encode("utf-16-le"))
    entries = entries.ljust(128 * 128, b"\0")

    def header(current, other, table):
        def pack(checksum):
            return struct.pack(
                "<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, checksum, 0, current, other,
                34, total - 34, b"\x11" * 16, table, 128, 128, zlib.crc32(entries))
        return pack(zlib.crc32(pack(0))).ljust(SECTOR, b"\0")

    store(path, parts, total, {
        0: bytes(sector), 1: header(1, total - 1, 2), 2: entries,
        total - 33: entries, total - 1: header(total - 1, 1, total - 33)})


def plain(path, trees, gaps):
    del gaps
    ext2.write(path, trees[0])


def store(path, parts, total, others):
    with open(path, "wb") as file_object:
        for start, _, data in parts:
            file_object.seek(start * SECTOR)
            file_object.write(data)
        for start, data in others.items():
            file_object.seek(start * SECTOR)
            file_object.write(data)
        file_object.truncate(total * SECTOR)
