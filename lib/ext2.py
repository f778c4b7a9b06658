"""Writes ext2 file system images (revision 1, one block group, blocks of 1024 bytes)."""

import struct

BLOCK = 1024
INODES = 256
TABLE_BLOCKS = INODES * 128 // BLOCK
BLOCKS = 8192


class Writer:
    """Collects the blocks and inodes of an image."""

    def __init__(self):
        # Blocks 0-4: boot, superblock, group descriptor, block and inode bitmap.
        self.blocks = {}
        self.next_block = 5 + TABLE_BLOCKS
        self.inodes = {}
        self.next_inode = 11

    def allocate(self, data):
        number = self.next_block
        self.next_block += 1
        self.blocks[number] = data.ljust(BLOCK, b"\0")
        return number

    def add_inode(self, number, mode, data, links):
        pointers = [0] * 15
        numbers = [self.allocate(data[i:i + BLOCK]) for i in range(0, len(data), BLOCK)]
        pointers[:min(12, len(numbers))] = numbers[:12]
        count = len(numbers)
        if len(numbers) > 12:
            if len(numbers) > 12 + 256:
                raise ValueError("file too large")
            pointers[12] = self.allocate(
                struct.pack(f"<{len(numbers) - 12:d}I", *numbers[12:]))
            count += 1
        self.inodes[number] = struct.pack(
            "<HHIIIIIHHIII15I", mode, 0, len(data), 0, 0, 0, 0, 0, links, count * 2, 0, 0,
            *pointers).ljust(128, b"\0")

    def add_directory(self, number, parent, entries):
        names = [(".", number, 2), ("..", parent, 2)]
        for name, entry in entries.items():
            child = self.next_inode
            self.next_inode += 1
            if isinstance(entry, dict):
                self.add_directory(child, number, entry)
                names.append((name, child, 2))
            else:
                self.add_inode(child, 0o100644, entry, 1)
                names.append((name, child, 1))
        data, block = b"", b""
        records = []
        for name, child, kind in names:
            encoded = name.encode("utf-8")
            size = 8 + -(-len(encoded) // 4) * 4
            records.append([struct.pack("<I", child), size, len(encoded), kind, encoded])
        for record in records:
            if len(block) + record[1] > BLOCK:
                data += self.finish(block, last)
                block = b""
            last = (len(block), record)
            block += record[0] + struct.pack("<HBB", record[1], record[2], record[3])
            block += record[4].ljust(record[1] - 8, b"\0")
        data += self.finish(block, last)
        self.add_inode(number, 0o40755, data, 2)

    @staticmethod
    def finish(block, last):
        """The last entry of a block takes the rest of it."""
        offset = last[0]
        return (block[:offset + 4] + struct.pack("<H", BLOCK - offset) +
                block[offset + 6:]).ljust(BLOCK, b"\0")

    def image(self):
        superblock = struct.pack(
            "<IIIIIIIIIIIIIHHHHHHIIIIHHIHHIII", INODES, BLOCKS, 0, BLOCKS - self.next_block,
            INODES - self.next_inode + 1, 1, 0, 0, BLOCKS, BLOCKS, INODES, 0, 0, 0, 20,
            0xEF53, 1, 1, 0, 0, 0, 0, 1, 0, 0, 11, 128, 0, 0, 2, 0)
        superblock += b"\x5a" * 16
        descriptor = struct.pack(
            "<IIIHHH", 3, 4, 5, BLOCKS - self.next_block, INODES - self.next_inode + 1, 1)

        def bitmap(used, total):
            value = bytearray(b"\xff" * BLOCK)
            for bit in range(used, total):
                value[bit // 8] &= ~(1 << bit % 8)
            return bytes(value)

        self.blocks[1] = superblock.ljust(BLOCK, b"\0")
        self.blocks[2] = descriptor.ljust(BLOCK, b"\0")
        self.blocks[3] = bitmap(self.next_block - 1, BLOCKS - 1)
        self.blocks[4] = bitmap(self.next_inode - 1, INODES)
        table = b"".join(
            self.inodes.get(i, b"\0" * 128) for i in range(1, INODES + 1))
        for index in range(TABLE_BLOCKS):
            self.blocks[5 + index] = table[index * BLOCK:(index + 1) * BLOCK]
        size = self.next_block
        return b"".join(
            self.blocks.get(i, b"\0" * BLOCK) for i in range(size)) , BLOCKS * BLOCK


def write(path, tree):
    """Writes an image with the directory tree: a dictionary of names."""
    writer = Writer()
    writer.add_directory(2, 2, tree)
    data, size = writer.image()
    with open(path, "wb") as file_object:
        file_object.write(data)
        file_object.truncate(size)
