"""P41: Windows AMCache (AMCache.hve) files."""

import re
import struct

import dt
import regf
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import amcache

PROPERTY = "P41"
TITLE = "AMCache hives: every file, program and application key is shown as stored"
STATEMENT = (
    "For every Windows NT Registry file whose root key has one of the AMCache names, the debug "
    "output lists the file reference keys (with MFT entry and sequence number where the name has "
    "those), program keys, application keys and application file keys in the order of the hive, "
    "and for each of their values, in order, the documented description (or the name of the "
    "value) and the data by type: strings, integers, every string of a multi-string, image "
    "versions as major.minor, link, installation and uninstallation times as POSIX times and "
    "modification and creation times as FILETIMEs. Keys that the reader does not know and hives "
    "with another root key are ignored. A file that is not a Registry file, or with values of "
    "which the data is too short for the type, is rejected with ParseError.")
QUANTIFIER = "all hives: key names, numbers of keys and values, value names, types and data"
WHY = "The test only opens one hive and looks at nothing that was read."
FILES = ["dtformats/amcache.py"]
MECHANISM = [
    ("keys", "WindowsAMCacheFile.ReadFileObject, _ReadFileKey, _ReadProgramsKey, "
             "_ReadInventoryApplicationKey, _ReadInventoryApplicationFileKey"),
    ("values", "_GetValueDataAsObject, _ReadFileReferenceKey, _ReadProgramKey"),
]
OBSERVE = ["debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent Registry file writer"
RULE = "two or more values in the keys that are shown"
ASSUMPTIONS = [
    "the data of values is not stored in one to three bytes inside the value, which pyregf does "
    "not return as stored",
    "file reference names in which the separator is next to another zero are only required to "
    "be shown as they are, their MFT entry and sequence number are ambiguous"]

ROOTS = ["{11517b7c-e79d-4e20-961b-75a811715add}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}"]
TEXT = st.text(alphabet="abcXYZ019 .:\\/{}-_%\u20ac\u00e9\u4e00", min_size=0, max_size=12)
NAME = st.text(alphabet="abcXYZ019 .{}-_\u20ac", min_size=1, max_size=12)
FILE_DESCRIPTIONS = {
    "0": "Product name", "1": "Company name", "3": "Language code", "5": "File version",
    "6": "File size", "7": "PE/COFF image size", "9": "PE/COFF checksum",
    "c": "File description", "d": "PE/COFF image version", "f": "PE/COFF compilation time",
    "11": "File modification time", "12": "File creation time", "15": "Path",
    "100": "Program identifier", "101": "SHA-1"}
PROGRAM_DESCRIPTIONS = {
    "0": "Name", "1": "Version", "2": "Publisher", "3": "Language code",
    "6": "Installation method", "7": "Uninstallation key paths", "a": "Installation time",
    "b": "Uninstallation time", "d": "Installation directories",
    "Files": "File reference key identifiers"}
APPLICATION_DESCRIPTIONS = {
    "ProgramId": "Program identifier", "ProgramInstanceId": "Program instance identifier"}
# Types of the values that are interpreted.
FILE_TYPES = {"d": 4, "f": 4, "11": 11, "12": 11, "17": 11}
PROGRAM_TYPES = {"a": 11, "b": 11, "7": 7, "d": 7, "Files": 7}


@st.composite
def value(draw, names, types):
    name = draw(st.one_of(st.sampled_from(sorted(names)), st.sampled_from(
        sorted(set(names) | set(types))), NAME))
    kind = types.get(name)
    if kind is None:
        kind = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 11]))
    if kind in (1, 2):
        content = draw(TEXT)
    elif kind == 3:
        content = draw(st.binary(min_size=4, max_size=20))
    elif kind in (4, 5):
        content = draw(dt.u(32))
    elif kind == 7:
        content = draw(st.lists(TEXT.filter(bool), max_size=4))
    elif name in ("11", "12", "17"):
        content = draw(dt.FILETIME.filter(lambda number: number < 1 << 63))
    else:
        content = draw(st.one_of(st.integers(0, 1 << 33), st.integers(0, (1 << 63) - 1)))
    return name, kind, content


@st.composite
def entry(draw, names, types, name=NAME):
    return {"name": draw(name), "values": draw(st.lists(
        value(names, types), max_size=6, unique_by=lambda item: item[0].upper()))}


REFERENCE = st.one_of(
    st.builds(lambda sequence, number: f"{sequence:x}0000{number:x}", st.integers(1, 0xFFFF),
              st.integers(1, 0xFFFFFFFFFF)), NAME,
    st.builds(lambda sequence, high, low: f"{sequence:x}0000{high:x}0000{low:x}",
              st.integers(0, 0xFFF).map(lambda value: value * 16 + 1),
              st.integers(1, 0xFFF), st.integers(0, 0xFFF)),
    st.text(alphabet="0123456789abcdef", min_size=1, max_size=14),
    st.text(alphabet="0g1", min_size=1, max_size=12))


@st.composite
def model_strategy(draw):
    unique = {"unique_by": lambda item: item["name"].upper()}
    files = draw(st.lists(st.fixed_dictionaries({"name": NAME, "keys": st.lists(
        entry(FILE_DESCRIPTIONS, FILE_TYPES, REFERENCE), max_size=3, **unique)}), max_size=3,
        **unique))
    return {
        "root": draw(st.sampled_from(ROOTS + [ROOTS[0].upper()])),
        "File": files, "Programs": draw(st.lists(
            entry(PROGRAM_DESCRIPTIONS, PROGRAM_TYPES), max_size=3, **unique)),
        "InventoryApplication": draw(st.lists(
            entry(APPLICATION_DESCRIPTIONS, {}), max_size=3, **unique)),
        "InventoryApplicationFile": draw(st.lists(entry({"Name": 1}, {}), max_size=2, **unique)),
        "present": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        "other": draw(st.lists(entry({"x": 1}, {}), max_size=2, **unique)),
        "order": draw(st.permutations(range(5))), "time": draw(dt.FILETIME),
        "lists": draw(st.lists(st.sampled_from(["lh", "lf", "li"]), min_size=1, max_size=3)),
        "case": draw(st.sampled_from([str, str.lower, str.upper])).__name__,
        "minor": draw(st.sampled_from([3, 5]))}


SECTIONS = ["File", "Programs", "InventoryApplication", "InventoryApplicationFile"]


def encode(item):
    name, kind, content = item
    if kind in (1, 2):
        data = (content + "\x00").encode("utf-16-le")
        if len(data) < 4:
            data += b"\x00\x00"
    elif kind == 3:
        data = content
    elif kind == 4:
        data = struct.pack("<I", content)
    elif kind == 5:
        data = struct.pack(">I", content)
    elif kind == 7:
        data = "".join(text + "\x00" for text in content + [""]).encode("utf-16-le")
        if len(data) < 4:
            data += b"\x00\x00"
    else:
        data = struct.pack("<Q", content)
    return name, kind, data


def build(model, change=None):
    lists = model["lists"]
    counter = [0]

    def key(name, keys=(), values=()):
        counter[0] += 1
        return {"name": name, "time": model["time"], "keys": list(keys), "values": list(values),
                "list": lists[counter[0] % len(lists)]}

    def leaf(item):
        return key(item["name"], values=[encode(entry_) for entry_ in item["values"]])

    # The name of a key is matched case-insensitive, the name of the hash is that of the key.
    case = {"str": str, "lower": str.lower, "upper": str.upper}[model["case"]]
    sections = []
    for name, present in zip(SECTIONS, model["present"]):
        if not present:
            continue
        if name == "File":
            sections.append(key(case(name), [key(volume["name"], [
                leaf(item) for item in volume["keys"]]) for volume in model["File"]]))
        else:
            sections.append(key(case(name), [leaf(item) for item in model[name]]))
    sections.append(key("Orphan", [leaf(item) for item in model["other"]]))
    sections = [sections[number] for number in model["order"] if number < len(sections)]
    root = key(model["root"], [key("Root", sections)])
    if change:
        change(root)
    return regf.build(root, model["time"], model["minor"])


def shown(name, kind, content, times):
    if times.get(name) == "posix":
        return dt.posix(content) if content <= 253402300799 else f"0x{content:08x}"
    if times.get(name) == "filetime":
        return dt.filetime(content)
    return str(content)


def expected_lines(model):
    """Lines of the debug output: text or (description, value)."""
    result = []

    def entries(items, title, descriptions, times, lists=(), version=None):
        for item in items:
            result.append(title(item["name"]))
            for name, kind, content in item["values"]:
                description = descriptions.get(name, name)
                if name in lists:
                    for number, text in enumerate(content):
                        result.append((description if number == 0 else "", text))
                elif name == version:
                    result.append((description, f"{content >> 16}.{content & 0xFFFF}"))
                else:
                    result.append((description, shown(name, kind, content, times)))
            result.append("")

    def reference(name):
        # A sequence number is at most 16-bit, hence has no separator in it.
        parts = re.fullmatch("([0-9a-f]{0,3}[1-9a-f])0000([1-9a-f][0-9a-f]*)", name)
        if not parts and name.count("0000") == 1:
            parts = re.fullmatch("([0-9a-f]*[1-9a-f])0000([1-9a-f][0-9a-f]*)", name)
        if parts:
            return f"File: {name} ({int(parts[2], 16)}-{int(parts[1], 16)})"
        if "0000" in name:
            return re.compile(re.escape(f"File: {name}") + "( .*)?")
        return f"File: {name}"

    present = dict(zip(SECTIONS, model["present"]))
    if present["File"]:
        for volume in model["File"]:
            entries(volume["keys"], reference, FILE_DESCRIPTIONS, {
                "f": "posix", "11": "filetime", "12": "filetime", "17": "filetime"}, version="d")
    if present["Programs"]:
        entries(model["Programs"], lambda name: f"Program: {name}", PROGRAM_DESCRIPTIONS,
                {"a": "posix", "b": "posix"}, lists=("7", "d", "Files"))
    if present["InventoryApplication"]:
        entries(model["InventoryApplication"], lambda name: f"Application: {name}",
                APPLICATION_DESCRIPTIONS, {})
    if present["InventoryApplicationFile"]:
        entries(model["InventoryApplicationFile"], lambda name: f"Application File: {name}",
                {}, {})
    return result


def check_hive(model, ctx):
    data = build(model)
    path = ctx.write(data, "Amcache.hve")
    expected = expected_lines(model)
    ctx.note(sum(isinstance(line, tuple) for line in expected) >= 2, key=repr(model),
             sample=repr(model)[:300], labels=[
                 f"sections:{sum(model['present'])}", f"lists:{len(set(model['lists']))}"])
    dt.read_file(amcache.WindowsAMCacheFile, path, debug=False)
    _, text = dt.read_file(amcache.WindowsAMCacheFile, path, debug=True)
    lines = text.split("\n")
    require(not text or lines[-1] == "", "the debug output does not end with a line")
    lines = lines[:-1]
    equal(len(lines), len(expected), "number of lines")
    for number, (line, item) in enumerate(zip(lines, expected)):
        if isinstance(item, tuple):
            match = re.fullmatch("(.*?)\t+: (.*)", line)
            require(match is not None, f"line {number} has no value: {line!r}")
            sequences_equal([match[1], match[2]], list(item), f"line {number}")
        elif isinstance(item, str):
            equal(line, item, f"line {number}")
        else:
            require(item.fullmatch(line), f"line {number}: {line!r} does not match {item}")


BROKEN = ["signature", "short", "integer", "multi", "bin", "root", "type", "unnamed"]


def check_broken(case, ctx):
    model, how, number = case
    strange = None
    extra = None
    if how == "integer":
        extra = [("zz", 4, bytes(number % 4)), ("zz", 5, bytes(number % 4)),
                 ("zz", 11, bytes(number % 8))][number // 8 % 3]
    elif how == "multi":
        extra = ("zz", 7, b"")
    elif how == "unnamed":
        strange = ("", 1, "text\x00".encode("utf-16-le"))
    elif how == "type":
        # Values of which the type is not the documented one.
        name = ["d", "f", "11", "12", "17", "d", "a", "Files", "7", "b"][number % 10]
        kind, content = [(1, "text\x00".encode("utf-16-le")), (3, b"abcdef"),
                         (4, b"\x01\x02\x03\x04"), (7, "ab\x00cd\x00\x00".encode("utf-16-le")),
                         (0, b"abcdef"), (3, b"")][number // 10 % 6]
        strange = (name, kind, content)
    model = dict(model, present=[True] * 4)

    def change(root):
        item = extra or strange
        if item:
            sections = {key["name"].lower(): key for key in root["keys"][0]["keys"]}
            key = {"name": "k", "time": 0, "keys": [], "values": [item], "list": "lh"}
            section = ["file", "programs", "inventoryapplication",
                       "inventoryapplicationfile"][number // 60 % 4]
            if section == "file":
                key = {"name": "v", "time": 0, "keys": [key], "values": [], "list": "lh"}
            sections[section]["keys"].append(key)
        if how == "root":
            root["name"] = ["x", ROOTS[0][:-1], "Amcache"][number % 3]

    data = bytearray(build(model, change))
    if how == "signature":
        data[number % 4] ^= 0x20
    elif how == "short":
        data = data[:number % 4096]
    elif how == "bin":
        data[4096 + number % 4] ^= 0x20
    path = ctx.write(bytes(data), "Amcache.hve")
    ctx.note(True, key=data.hex(), sample=f"{how} {model!r:.200}", labels=[f"broken:{how}"])
    if how in ("root", "type", "unnamed"):
        # Not damaged: the data is shown or the hive is ignored.
        dt.read_file(amcache.WindowsAMCacheFile, path, debug=False)
        _, text = dt.read_file(amcache.WindowsAMCacheFile, path, debug=True)
        if how == "root":
            equal(text, "", "debug output of a hive that is not an AMCache")
        elif how == "unnamed":
            require(": text\n" in text, "the unnamed value is not shown")
        return
    dt.rejected(amcache.WindowsAMCacheFile, path, f"hive with invalid {how}")


GENERATORS = {"amcache": model_strategy().map(build)}
SUBTESTS = [
    SubTest("hive", model_strategy(), check_hive, 900, 12000),
    SubTest("broken", st.tuples(model_strategy(), st.sampled_from(BROKEN),
                                st.integers(0, 4095)), check_broken, 600, 12000),
]
