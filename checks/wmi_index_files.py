"""P38: WMI repository mapping files and index binary-tree files."""

import os
import struct

import dt
import wmi
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import wmi_repository

PROPERTY = "P38"
TITLE = "WMI repository: mapping files and index binary tree give the keys stored"
STATEMENT = (
    "For every WMI mapping file of format version 1 or 2 the format version and sequence number "
    "are the stored ones, the objects mapping table resolves every mapped page number to the page "
    "number in the first mapping table, the index mapping table to that in the second table "
    "(the first when there is only one), and a mapped page number the table does not have is "
    "a parse error. For every index binary-tree file GetPage returns the page type, the root page "
    "number, the keys (every key the backslash separated value strings its segments refer to) "
    "and the sub pages that are set, and None for a page past the end of the file. For a repository "
    "opened by its index.btr file, in upper, lower or mixed case, absolute or relative, "
    "GetIndexKeys gives every key reachable from the root page exactly once, each page before "
    "its sub pages, using the mapping of index.map or else of the mapping file with the highest "
    "sequence number. Debug mode prints the stored values and gives the same result. "
    "Wrong signatures, data that ends early, offsets, segments and pages out of bounds and pages that are "
    "their own parent are parse errors and reading always terminates.")
QUANTIFIER = ("every format version, number of mapping entries, permutation of pages, shape of tree, "
              "number of keys and segments per page and every truncation")
WHY = ("The tests read the headers and tables of one INDEX.MAP file and only open and close one "
       "INDEX.BTR file: they do not resolve any page or look at a single key.")
FILES = ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml",
         "dtformats/wmi_repository.debug.yaml"]
MECHANISM = [
    ("mapping", "MappingFile.ReadFileObject, GetIndexMappingTable, GetObjectsMappingTable"),
    ("pages", "IndexBinaryTreeFile._ReadPage, _ReadPageKeyData, _ReadPageValueData, GetPage"),
    ("tree", "CIMRepository.Open, _GetIndexRootPage, _GetKeysFromIndexPage, GetIndexKeys"),
]
OBSERVE = ["format_version, sequence_number, ResolveMappedPageNumber", "GetPage, GetIndexKeys",
           "debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more mapping entries, or two or more keys on a page or in the tree"
ASSUMPTIONS = [
    "format version 1 mapping files do not have exactly one page more than mapping entries, "
    "which the reader cannot tell from version 2"]

ENTRY = st.one_of(st.integers(0, 400), dt.u(32), st.just(0xFFFFFFFF))


@st.composite
def section(draw, version):
    entries = draw(st.lists(ENTRY, min_size=1, max_size=12))
    pages = draw(st.one_of(st.integers(0, 20), dt.u(32)))
    if version == 1 and pages == len(entries) + 1:
        pages += 1
    return {
        "sequence": draw(st.one_of(st.integers(0, 20), dt.u(32))), "pages": pages,
        "entries": entries, "table": draw(st.lists(ENTRY, max_size=5)),
        "extra": draw(st.integers(0, 1000)), "number": draw(st.one_of(
            st.integers(0, 9), st.integers(0, 0xFFFFFFFE)))}


@st.composite
def mapping(draw):
    version = draw(st.sampled_from([1, 2]))
    number = 2 if version == 2 else draw(st.integers(1, 2))
    return version, [draw(section(version)) for _ in range(number)]


def section_data(version, item):
    return wmi.map_section(version, item["sequence"], item["pages"], item["entries"],
                           item["table"], item["extra"], item["number"])


def mapping_data(model):
    version, sections = model
    return b"".join(section_data(version, item) for item in sections)


def page_number(value):
    return f"0x{value:08x} (unavailable)" if value == 0xFFFFFFFF else f"{value:d}"


def check_mapping(model, ctx):
    version, sections = model
    data = mapping_data(model)
    path = ctx.write(data, "mapping1.map")
    ctx.note(len(sections[0]["entries"]) >= 2, key=data.hex(), sample=repr(model)[:300],
             labels=[f"v{version}:{len(sections)}"])
    for debug in (False, True):
        test_file, text = dt.read_file(wmi_repository.MappingFile, path, debug=debug)
        equal(test_file.format_version, version, "format version")
        equal(test_file.sequence_number, sections[0]["sequence"], "sequence number")
        for what, table, entries in (
                ("objects", test_file.GetObjectsMappingTable(), sections[0]["entries"]),
                ("index", test_file.GetIndexMappingTable(), sections[-1]["entries"])):
            sequences_equal([table.ResolveMappedPageNumber(index)
                             for index in range(len(entries))], entries, f"{what} pages")
            for index in (len(entries), len(entries) + 7, 0xFFFFFFFF):
                try:
                    table.ResolveMappedPageNumber(index)
                except wmi_repository.errors.ParseError:
                    continue
                require(False, f"{what} mapped page {index} out of bounds was resolved")
    expected = []
    for item in sections:
        expected.append(("  Number of entries", str(len(item["entries"]))))
        for index, entry in enumerate(item["entries"]):
            expected.append(("    Page number", page_number(entry)))
            if version == 2:
                for step in range(5):
                    value = (item["extra"] * 7 + index * 5 + step) & 0xFFFFFFFF
                    expected.append((f"    Unknown{step + 1}", dt.hex8(value)))
        expected.append(("  Number of entries", str(len(item["table"]))))
        for index, entry in enumerate(item["table"]):
            expected.append((f"  Entry: {index} page number", page_number(entry)))
    dt.pairs_equal(text, expected, labels={label for label, _ in expected})


SEGMENT = st.one_of(
    st.builds(lambda prefix, text: prefix + text, st.sampled_from(
        ["NS_", "CD_", "CI_", "I_", "IL_", "R_", "CR_", "C_", "KI_"]),
        st.text(alphabet="0123456789ABCDEF.", max_size=36)),
    st.text(alphabet=st.characters(min_codepoint=0x20, max_codepoint=0x7E,
                                   exclude_characters="\\"), max_size=10))


@st.composite
def key_list(draw, minimum=0, maximum=10):
    pool = draw(st.lists(SEGMENT, min_size=1, max_size=8, unique=True))
    return [tuple(key) for key in draw(st.lists(st.lists(
        st.sampled_from(pool), min_size=1, max_size=4), min_size=minimum, max_size=maximum))]


@st.composite
def page(draw, number):
    if draw(st.integers(0, 5)) == 0:
        page_type = draw(st.sampled_from([0xADDD, 0xBADD, 0, 0xACCD]))
        return {"type": page_type, "keys": [], "subs": [0], "unknown": draw(dt.u(32)),
                "root": draw(dt.u(32)), "mapped": number,
                "trailing": draw(st.sampled_from([b"\x00", b"\xfe"])), "reverse": False}
    keys = draw(key_list())
    return {"type": 0xACCC, "keys": keys, "unknown": draw(dt.u(32)), "root": draw(dt.u(32)),
            "mapped": draw(dt.u(32)),
            "subs": draw(st.lists(st.one_of(st.sampled_from([0, 0xFFFFFFFF]), st.integers(1, 50),
                                            dt.u(32)),
                                  min_size=len(keys) + 1, max_size=len(keys) + 1)),
            "trailing": draw(st.sampled_from([b"\x00", b"\xfe", b"\xcc\xac"])),
            "reverse": draw(st.booleans())}


@st.composite
def index_file(draw):
    return [draw(page(number)) for number in range(draw(st.integers(1, 3)))]


def build_page(item):
    return wmi.index_page(item["mapped"], item["keys"], item["subs"], item["unknown"],
                          item["trailing"], item["reverse"], item["type"], item["root"])


def key_path(key):
    return "".join("\\" + segment for segment in key)


TYPES = {0xACCC: "Is active", 0xADDD: "Is administrative", 0xBADD: "Is deleted"}


def sub_page(value):
    return f"0x{value:08x} (unavailable)" if value in (0, 0xFFFFFFFF) else f"{value:d}"


def page_pairs(item, fields):
    name = TYPES.get(item["type"], "Unknown")
    result = [("Page type", f"0x{item['type']:04x} ({name})"),
              ("Mapped page number", str(item["mapped"])), ("Unknown1", dt.hex8(item["unknown"])),
              ("Root page number", str(item["root"]))]
    if item["type"] != 0xACCC:
        return result
    result.append(("Number of keys", str(len(item["keys"]))))
    result += [(f"Unknown2: {i}", str(i)) for i in range(len(item["keys"]))]
    result += [(f"Sub page: {i} mapped page number", sub_page(value))
               for i, value in enumerate(item["subs"])]
    result += [(f"Key: {i} offset", f"{value} (0x{value:08x})")
               for i, value in enumerate(fields["keys"])]
    size = len(fields["key_data"])
    result.append(("Key data size", f"{size} ({size * 2} bytes)"))
    result.append(("Number of values", str(len(fields["values"]))))
    result += [(f"Value: {i} offset", f"{value} (0x{value:08x})")
               for i, value in enumerate(fields["offsets"])]
    result.append(("Value data size", f"{len(fields['heap'])} bytes"))
    for i, key in enumerate(item["keys"]):
        offset = fields["keys"][i] * 2
        result.append((f"Page key: {i} offset", f"{offset} (0x{offset:08x})"))
        result.append((f"Page key: {i} number of segments", str(len(key))))
        result.append((f"Page key: {i} segments", ", ".join(
            str(fields["values"].index(segment)) for segment in key)))
    result += [(f"Page value: {i} data", value) for i, value in enumerate(fields["values"])]
    return result


def check_pages(items, ctx):
    built = [build_page(item) for item in items]
    path = ctx.write(b"".join(data for data, _ in built), "index.btr")
    ctx.note(any(len(item["keys"]) >= 2 for item in items), key=repr(items),
             sample=repr(items)[:300], labels=[f"pages:{len(items)}"])
    text = None
    for debug in (False, True):
        recorder = dt.Recorder()
        test_file = wmi_repository.IndexBinaryTreeFile(debug=debug, output_writer=recorder)
        test_file.Open(path)
        text = recorder.text
        try:
            for number in list(range(len(items))) + [0]:
                result = test_file.GetPage(number)
                item = items[number]
                equal(result.page_type, item["type"], "page type")
                equal(result.root_page_number, item["root"], "root page number")
                sequences_equal(list(result.keys), [key_path(key) for key in item["keys"]],
                                "keys")
                expected = [] if item["type"] != 0xACCC else [
                    value for value in item["subs"] if value not in (0, 0xFFFFFFFF)]
                sequences_equal(list(result.sub_pages), expected, "sub pages")
            for number in (len(items), len(items) + 5, 0xFFFFFFFF):
                equal(test_file.GetPage(number), None, "page past the end of the file")
        finally:
            test_file.Close()
    expected = [pair for item, (_, fields) in zip(items, built)
                for pair in page_pairs(item, fields)]
    dt.pairs_equal(text, expected)
    sizes = [len(fields["body"]) for item, (_, fields) in zip(items, built)
             if item["type"] == 0xACCC]
    sequences_equal([len(data) for label, data in dt.dumps(text) if label == "Page body data"], sizes,
                    "sizes of the page bodies shown")


FILENAMES = {
    "lower": str.lower, "upper": str.upper, "mixed": lambda name: name[:3].upper() + name[3:]}


@st.composite
def tree(draw):
    """A tree of pages: (keys, children) and how the pages are mapped."""
    version = draw(st.sampled_from(["2.1", "2.2"]))

    def node(depth):
        keys = draw(key_list(maximum=5 if depth else 8))
        children = []
        if depth < 3:
            children = [node(depth + 1) for _ in range(
                draw(st.integers(0, min(len(keys) + 1, 3 if depth == 0 else 2))))]
        slots = draw(st.permutations(range(len(keys) + 1)))[:len(children)]
        return {"keys": keys, "children": children, "slots": sorted(slots),
                "unset": draw(st.sampled_from([0, 0xFFFFFFFF]))}

    root = node(0)
    nodes = []

    def walk(item):
        nodes.append(item)
        for child in item["children"]:
            walk(child)

    walk(root)
    mapped = draw(st.permutations(range(1, len(nodes) + draw(st.integers(1, 3)))))
    if version == "2.2":
        mapped = [1] + [value for value in mapped if value != 1]
    count = max(mapped[:len(nodes)]) + 1
    physical = draw(st.permutations(range(count + draw(st.integers(0, 2)))))[:count]
    source = draw(st.sampled_from(["index.map", "mapping"]))
    if version == "2.2" and source == "index.map":
        source = "mapping"
    sequences = draw(st.permutations(range(1, 9)))[:draw(st.integers(1, 3))]
    return {"version": version, "root": root, "mapped": mapped[:len(nodes)],
            "physical": list(physical), "source": source, "sequences": list(sequences),
            "numbers": sorted(draw(st.permutations([1, 2, 3]))[:len(sequences)]),
            "case": draw(st.sampled_from(sorted(FILENAMES))),
            "relative": draw(st.booleans()),
            "folder": draw(st.sampled_from([None, None, "[ab]b", "a?", "*b", "a[b"])), "ver": draw(st.booleans())}


def tree_files(model):
    """Names and data of the files and the expected keys."""
    keys = []
    pages = {}
    numbers = iter(model["mapped"])

    def walk(item):
        number = next(numbers)
        keys.extend(key_path(key) for key in item["keys"])
        subs = [item["unset"]] * (len(item["keys"]) + 1)
        for slot, child in zip(item["slots"], item["children"]):
            subs[slot] = walk(child)
        pages[number] = wmi.index_page(number, item["keys"], subs, 0)[0]
        return number

    root = walk(model["root"])
    pages[0] = wmi.index_page(0, [], [0], 0, page_type=0xADDD, root=root)[0]
    filler = wmi.index_page(0, [("DELETED",)], [0, 0], 0, page_type=0xBADD)[0]
    physical = model["physical"]
    data = [filler] * (max(physical) + 1)
    for number, content in pages.items():
        data[physical[number]] = content
    version = 1 if model["version"] == "2.1" else 2
    files = {"index.btr": b"".join(data)}
    good = wmi.map_section(version, 0, len(physical) + 8, physical, [])
    other = wmi.map_section(version, 0, 77, [0] * len(physical), [])
    if model["source"] == "index.map":
        files["index.map"] = good
    else:
        active = model["sequences"].index(max(model["sequences"]))
        for position, (number, sequence) in enumerate(zip(model["numbers"], model["sequences"])):
            first = wmi.map_section(version, sequence, 77, [0] * len(physical), [])
            second = good if position == active else other
            files[f"mapping{number}.map"] = first + second
        if model["ver"]:
            files["mapping.ver"] = struct.pack("<I", model["numbers"][active])
    return files, keys


def write_files(root, files, case):
    for name, data in files.items():
        with open(os.path.join(root, FILENAMES[case](name)), "wb") as file_object:
            file_object.write(data)


def check_tree(model, ctx):
    files, expected = tree_files(model)
    ctx.note(len(expected) >= 2, key=repr(model), sample=repr(model)[:300],
             labels=[f"{model['version']}:{model['source']}", f"case:{model['case']}",
                     f"pages:{min(len(model['mapped']), 4)}"])
    with ctx.directory() as root:
        write_files(root, files, model["case"])
        path = os.path.join(root, FILENAMES[model["case"]]("index.btr"))
        if model["folder"]:
            # A path has no wildcards.
            folder = os.path.join(root, model["folder"])
            os.mkdir(folder)
            for name in os.listdir(root):
                if os.path.isfile(os.path.join(root, name)):
                    os.rename(os.path.join(root, name), os.path.join(folder, name))
            for decoy in ("ab", "a!", "!b"):
                os.mkdir(os.path.join(root, decoy))
                for name in files:
                    with open(os.path.join(root, decoy, name), "wb") as file_object:
                        file_object.write(b"decoy")
            path = os.path.join(folder, os.path.basename(path))
            root = folder
        if model["relative"]:
            path = os.path.relpath(path)
        for debug in (False, True):
            recorder = dt.Recorder()
            repository = wmi_repository.CIMRepository(debug=debug, output_writer=recorder)
            repository.Open(path)
            try:
                equal(repository.format_version, model["version"], "format version")
                sequences_equal(list(repository.GetIndexKeys()), expected, "keys")
                sequences_equal(list(repository.GetIndexKeys()), expected, "keys, second time")
            finally:
                repository.Close()
            if debug:
                continue
            # A mapping file on its own.
            for name in files:
                if name.endswith(".map"):
                    repository = wmi_repository.CIMRepository()
                    repository.Open(os.path.join(root, FILENAMES[model["case"]](name)))
                    repository.Close()


@st.composite
def broken(draw):
    kind = draw(st.sampled_from(["mapping", "index", "tree"]))
    if kind == "mapping":
        model = draw(mapping())
        version, sections = model
        data = bytearray(mapping_data(model))
        first = len(section_data(version, sections[0]))
        how = draw(st.sampled_from(["signature", "footer", "short", "entries"]))
        if how == "signature":
            data[0:4] = struct.pack("<I", draw(dt.u(32).filter(lambda v: v != 0xABCD)))
        elif how == "footer":
            end = draw(st.sampled_from([first, len(data)]))
            data[end - 4:end] = struct.pack("<I", draw(dt.u(32).filter(lambda v: v != 0xDCBA)))
        elif how == "short":
            sizes = [draw(st.integers(0, first - 1))]
            if len(sections) == 2:
                start = first if version == 2 else first + 12
                sizes.append(draw(st.integers(start, len(data) - 1)))
            data = data[:draw(st.sampled_from(sizes))]
        else:
            at = 12 if version == 1 else 20
            data[at:at + 4] = struct.pack("<I", draw(st.sampled_from(
                [len(data), 0xFFFFFF, 0x7FFFFFFF])))
        return kind, how, bytes(data)
    if kind == "index":
        keys = draw(key_list(minimum=1))
        item = {"type": 0xACCC, "keys": keys, "subs": [0] * (len(keys) + 1), "unknown": 0,
                "root": 0, "mapped": 1, "trailing": b"\xfe", "reverse": False}
        data, fields = build_page(item)
        data = bytearray(data)
        how = draw(st.sampled_from(
            ["short", "keys", "key offset", "segment", "value offset", "terminator", "encoding"]))
        keys_at = 20 + 4 * len(keys) + 4 * (len(keys) + 1)
        key_data = keys_at + 2 * len(keys) + 2
        values_at = key_data + 2 * len(fields["key_data"])
        heap_at = values_at + 2 + 2 * len(fields["offsets"]) + 2
        if how == "short":
            data = data[:draw(st.integers(1, wmi.PAGE - 1))]
        elif how == "keys":
            data[16:20] = struct.pack("<I", draw(st.sampled_from(
                [2000, 0xFFFFFF, 0x7FFFFFFF, 0xFFFFFFFE])))
        elif how == "key offset":
            index = draw(st.integers(0, len(keys) - 1))
            data[keys_at + 2 * index:keys_at + 2 * index + 2] = struct.pack(
                "<H", draw(st.integers(len(fields["key_data"]), 0xFFFF)))
        elif how == "segment":
            at = key_data + 2 * fields["keys"][draw(st.integers(0, len(keys) - 1))] + 2
            data[at:at + 2] = struct.pack("<H", draw(
                st.integers(len(fields["values"]), 0xFFFF)))
        elif how == "value offset":
            index = draw(st.integers(0, len(fields["offsets"]) - 1))
            at = values_at + 2 + 2 * index
            data[at:at + 2] = struct.pack("<H", draw(st.integers(len(fields["heap"]), 0xFFFF)))
        elif how == "terminator":
            data[heap_at + len(fields["heap"]) - 1] = 0x41
        else:
            if len(fields["heap"]) < 2:
                return kind, "short", bytes(data[:-1])
            at = heap_at + draw(st.integers(0, len(fields["heap"]) - 2))
            data[at] = draw(st.integers(0x80, 0xFF))
        return kind, how, bytes(data)
    model = draw(tree().filter(lambda model: len(model["mapped"]) >= 2))
    how = draw(st.sampled_from(["cycle", "page", "missing", "administrative"]))
    files, _ = tree_files(model)
    if how == "cycle":
        leaf = model["root"]
        order = []

        def collect(item):
            order.append(item)
            for child in item["children"]:
                collect(child)

        collect(leaf)
        numbers = dict(zip(map(id, order), model["mapped"]))
        path = [model["root"]]
        while path[-1]["children"]:
            path.append(path[-1]["children"][draw(
                st.integers(0, len(path[-1]["children"]) - 1))])
        child = path[-1]
        parent = draw(st.sampled_from(path))
        subs = [child["unset"]] * (len(child["keys"]) + 1)
        subs[draw(st.integers(0, len(child["keys"])))] = numbers[id(parent)]
        number = numbers[id(child)]
        replacement = wmi.index_page(number, child["keys"], subs, 0)[0]
        at = model["physical"][number] * wmi.PAGE
        data = files["index.btr"]
        files["index.btr"] = data[:at] + replacement + data[at + wmi.PAGE:]
    elif how == "page":
        item = model["root"]
        subs = [item["unset"]] * (len(item["keys"]) + 1)
        subs[draw(st.integers(0, len(item["keys"])))] = draw(
            st.integers(len(model["physical"]), 0xFFFFFFFE))
        number = model["mapped"][0]
        at = model["physical"][number] * wmi.PAGE
        data = files["index.btr"]
        files["index.btr"] = data[:at] + wmi.index_page(
            number, item["keys"], subs, 0)[0] + data[at + wmi.PAGE:]
    elif how == "missing" or model["version"] == "2.2":
        how = "missing"
        files = {name: data for name, data in files.items() if name == "index.btr"}
    else:
        at = model["physical"][0] * wmi.PAGE
        data = files["index.btr"]
        files["index.btr"] = data[:at] + struct.pack("<I", draw(
            st.sampled_from([0xBADD, 0, 0xADDE]))) + data[at + 4:]
    return kind, how, files


def check_broken(case, ctx):
    kind, how, content = case
    ctx.note(True, key=repr(content), sample=f"{kind} {how} {content!r:.200}",
             labels=[f"{kind}:{how}"])
    if kind == "mapping":
        path = ctx.write(content, "mapping1.map")
        dt.rejected(wmi_repository.MappingFile, path, f"mapping file with invalid {how}")
        return
    for debug in (False, True):
        try:
            if kind == "index":
                path = ctx.write(content, "index.btr")
                test_file = wmi_repository.IndexBinaryTreeFile(
                    debug=debug, output_writer=dt.Recorder())
                test_file.Open(path)
                try:
                    test_file.GetPage(0)
                finally:
                    test_file.Close()
            else:
                with ctx.directory() as root:
                    write_files(root, content, "lower")
                    recorder = dt.Recorder()
                    repository = wmi_repository.CIMRepository(
                        debug=debug, output_writer=recorder)
                    pages = len(content["index.btr"]) // wmi.PAGE
                    try:
                        repository.Open(os.path.join(root, "index.btr"))
                        for count, _ in enumerate(repository.GetIndexKeys()):
                            require(count < 100000, "number of keys is not bounded")
                    finally:
                        repository.Close()
                        # Every page is read once when the file is opened and once on its path.
                        require(recorder.text.count("Reading page:") <= 4 * pages + 20,
                                "number of pages read is not bounded")
        except wmi_repository.errors.ParseError:
            continue
        require(False, f"{kind} with invalid {how} was accepted (debug {debug})")


GENERATORS = {
    "wmi_mapping": mapping().map(mapping_data),
    "wmi_index": index_file().map(
        lambda items: b"".join(build_page(item)[0] for item in items)),
}
SUBTESTS = [
    SubTest("mapping", mapping(), check_mapping, 300, 12000),
    SubTest("pages", index_file(), check_pages, 200, 8000),
    SubTest("tree", tree(), check_tree, 150, 6000),
    SubTest("broken", broken(), check_broken, 300, 12000),
]
