"""P49: tools that read files from a storage media image."""

import os

import detail_tools
import disk
import ext2
import indexeddb_files
import leveldb_files
import log_support_files
import scripts
import spotlight_store
import trace_log_entries
from vf import SubTest, Violation, equal, require, sequences_equal, st

from dfvfs.lib import definitions
from dtformats import dfvfs_helpers, errors

PROPERTY = "P49"
TITLE = "A file in a storage media image is read like the same file outside of it"
STATEMENT = (
    "For every directory tree stored in a file system image, the dfVFS helper that is made "
    "from the --image argument lists, sizes and reads every file of it as stored and finds "
    "no other. The tools with that argument (indexeddb.py, jump_list.py, leveldb.py, "
    "spotlight_storedb.py and unified_logging.py) print for every file in an image, with or "
    "without debug output, exactly what they print for that file, with the files next to "
    "it that it refers to, on the local file system, and exit with the same status; the "
    "image remains unchanged. The partition that is asked for, by its number, range or all, "
    "is the one that is read and more than one is none; the snapshots and volumes that are "
    "asked for are passed on as such, and the preferred back-end is set for the formats of "
    "the argument only. A file that only exists on the local file system is not "
    "read, and the tools fail for an image without a file system.")
QUANTIFIER = "every file of these formats, every directory tree and path within an image"
WHY = "The scripts have no tests, and those of the helper use one small image."
FILES = ["dtformats/dfvfs_helpers.py", "dtformats/file_system.py",
         "dtformats/data_format.py", "scripts/indexeddb.py", "scripts/jump_list.py",
         "scripts/leveldb.py", "scripts/spotlight_storedb.py",
         "scripts/unified_logging.py"]
MECHANISM = [
    ("file system of the image", "dfvfs_helpers.ParseDFVFSCLIArguments"),
    ("access to files", "dfvfs_helpers.DFVFSFileSystemHelper, "
                        "data_format.BinaryDataFile.Open"),
]
OBSERVE = ["standard output and exit status of the scripts",
           "results of DFVFSFileSystemHelper"]
TECHNIQUE = (
    "property-based differential testing: the tool on an image written from a generated "
    "directory tree against the tool on the tree itself")
RULE = "a file of more than one block (1024 bytes) or a tree of three or more files"
ASSUMPTIONS = [
    "dfVFS and libfsext (installed) read the ext2 images; partitions are those of MBR and "
    "GPT, of which every one has an ext2 file system"]
GENERATORS = {}


def tree_of(path):
    """The directory as nested dictionaries."""
    result = {}
    for entry in os.scandir(path):
        if entry.is_dir():
            result[entry.name] = tree_of(entry.path)
        else:
            with open(entry.path, "rb") as file_object:
                result[entry.name] = file_object.read()
    return result


def sizes(tree):
    result = []
    for entry in tree.values():
        result += sizes(entry) if isinstance(entry, dict) else [len(entry)]
    return result


def compare(ctx, name, root, path, arguments):
    """Compares the tool for a path with that for its copy in an image."""
    tree = tree_of(root)
    stored = sizes(tree)
    if not max(stored) or max(stored) > 250000 or sum(stored) > 6000000:
        return
    ctx.note(len(stored) > 2 or max(stored) > 1024, repr((tree, arguments)), path)
    with ctx.directory() as scratch:
        image = os.path.join(scratch, "image.raw")
        ext2.write(image, tree)
        with open(image, "rb") as file_object:
            before = file_object.read()
        native = scripts.run(name, *arguments, os.path.join(root, *path))
        stored = scripts.run(name, *arguments, "--image", image, "/" + "/".join(path))
        equal(stored.status, native.status, "exit status with --image")
        equal(stored.text, native.text, "output with --image")
        with open(image, "rb") as file_object:
            require(file_object.read() == before, "image changed")
        # The image does not have this path, the local file system does.
        try:
            result = scripts.run(
                name, *arguments, "--image", image, os.path.join(root, *path))
        except (OSError, errors.ParseError):
            return
        if result.status == 0:
            raise Violation("local file read instead of that in the image")


PLACE = st.lists(st.sampled_from(["a", "Users", "Dir with space", "caf\u00e9"]), max_size=2)


def check_file(name):
    def check(case, ctx):
        place, file_name, data, arguments = case
        with ctx.directory() as root:
            folder = os.path.join(root, *place)
            os.makedirs(folder, exist_ok=True)
            with open(os.path.join(folder, file_name), "wb") as file_object:
                file_object.write(data)
            compare(ctx, name, root, place + [file_name], arguments)
    return check


def check_spotlight(case, ctx):
    place, model, arguments = case
    files = {}
    data = spotlight_store.build(model, files)
    with ctx.directory() as root:
        folder = os.path.join(root, *place)
        os.makedirs(folder, exist_ok=True)
        for name, content in list(files.items()) + [("store.db", data)]:
            with open(os.path.join(folder, name), "wb") as file_object:
                file_object.write(content)
        paths = ["store.db"] + sorted(n for n in files if n.endswith(".map.header"))
        compare(ctx, "spotlight_storedb", root, place + [paths[len(data) % len(paths)]],
                arguments)


def check_trace(case, ctx):
    model, arguments = case
    with ctx.directory() as root:
        path = trace_log_entries.write_files(model, root)
        compare(ctx, "unified_logging", root,
                os.path.relpath(path, root).split(os.sep), arguments)


NAME = st.text("abcXYZ019._- \u00e9\u4e2d", min_size=1, max_size=30).filter(
    lambda n: n not in (".", ".."))
CONTENT = st.one_of(
    st.binary(max_size=40), st.integers(0, 30000).map(
        lambda n: bytes(i * 31 % 251 for i in range(n))))
TREE = st.dictionaries(NAME, st.recursive(
    CONTENT, lambda inner: st.dictionaries(NAME, inner, max_size=4), max_leaves=12),
    max_size=8)


class Options:
    """Arguments of the tools."""

    back_end = None
    partitions = None
    snapshots = None
    volumes = None
    image = None


def check_helper_tree(helper, tree, path):
    names = list(helper.ListDirectory(path or "/"))
    sequences_equal(sorted(names), sorted(tree), f"entries of {path!r}")
    for name, entry in tree.items():
        child = f"{path}/{name}"
        require(helper.CheckFileExistsByPath(child), f"{child!r} does not exist")
        equal(helper.SplitPath(child)[-1], name, "last segment")
        equal(helper.BasenamePath(child), name, "base name")
        equal(helper.DirnamePath(child) or "/", path or "/", "directory name")
        equal(helper.JoinPath(helper.SplitPath(child)), child, "joined path")
        require(not helper.CheckFileExistsByPath(child + "x1"), "file that is not stored")
        if isinstance(entry, dict):
            check_helper_tree(helper, entry, child)
        else:
            equal(helper.GetFileSizeByPath(child), len(entry), f"size of {child!r}")
            file_object = helper.OpenFileByPath(child)
            require(file_object.read() == entry, f"data of {child!r}")
            require(file_object.read() == b"", f"data behind {child!r}")


def check_tree(tree, ctx):
    stored = sizes(tree)
    ctx.note(len(stored) > 2 or max(stored, default=0) > 1024, repr(tree), sorted(tree))
    with ctx.directory() as scratch:
        options = Options()
        options.image = os.path.join(scratch, "image.raw")
        ext2.write(options.image, tree)
        helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
        require(helper is not None, "no file system found")
        check_helper_tree(helper, tree, "")


def selection(total):
    """Partition numbers as an argument and as a set."""
    def item(pair):
        low, high = sorted(pair)
        return (f"{low}" if low == high else f"{low}..{high}", set(range(low, high + 1)))

    number = st.integers(1, total)
    single = number.map(lambda n: (f"{n}", {n}))
    some = st.lists(st.tuples(number, number).map(item), min_size=1, max_size=3).map(
        lambda items: (",".join(text for text, _ in items),
                       set().union(*(numbers for _, numbers in items))))
    everything = st.just(("all", set(range(1, total + 1))))
    return st.one_of(single, single, some, everything)


PARTITIONS = st.integers(1, 4).flatmap(lambda total: st.tuples(
    st.sampled_from(["mbr", "gpt"]), st.lists(TREE, min_size=total, max_size=total),
    st.lists(st.integers(0, 9), min_size=total, max_size=total),
    selection(total) if total > 1 else st.one_of(
        st.just((None, {1})), selection(total))))


def check_partitions(case, ctx):
    kind, trees, gaps, (text, numbers) = case
    ctx.note(len(trees) > 1 and len(numbers) < len(trees), repr(case), (kind, text),
             labels=[kind])
    with ctx.directory() as scratch:
        options = Options()
        options.image = os.path.join(scratch, "image.raw")
        options.partitions = text
        getattr(disk, kind)(options.image, trees, gaps)
        helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
        if len(numbers) > 1:
            require(helper is None, "more than one file system selected")
            return
        require(helper is not None, "no file system found")
        check_helper_tree(helper, trees[min(numbers) - 1], "")
        # The tools read the same file system.
        tree = trees[min(numbers) - 1]
        names = [name for name, entry in tree.items() if isinstance(entry, bytes)]
        if not names or text is None:
            return
        outside = os.path.join(scratch, "outside")
        os.mkdir(outside)
        with open(os.path.join(outside, names[0]), "wb") as file_object:
            file_object.write(tree[names[0]])
        found = []
        for arguments in (
                ["--image", options.image, "--partitions", text, "/" + names[0]],
                ["--image", options.image, "--partition", text, "/" + names[0]],
                [os.path.join(outside, names[0])]):
            try:
                result = scripts.run("leveldb", *arguments)
                found.append((result.status, result.text))
            except (OSError, errors.ParseError) as exception:
                found.append(type(exception))
        equal(found[0], found[2], "output for a partition")
        equal(found[1], found[2], "output for a partition")


ITEMS = st.one_of(
    st.none(), st.just("all"), st.lists(st.tuples(
        st.integers(1, 30), st.integers(1, 30)).map(sorted), min_size=1, max_size=4))


def option_text(value):
    if not isinstance(value, list):
        return value
    return ",".join(f"{low}" if low == high else f"{low}..{high}" for low, high in value)


def option_numbers(value):
    if value is None:
        return []
    if value in ("all", "none"):
        return [value]
    numbers = set().union(*(range(low, high + 1) for low, high in value))
    return sorted(numbers)


def check_options(case, ctx):
    """The arguments as they arrive at the volume scanner of dfVFS."""
    partitions, snapshots, volumes = case
    ctx.note(len({repr(value) for value in case}) > 1, repr(case), case)
    calls = []

    def record(self, source_path, options=None):
        del self
        calls.append((source_path, options))
        return []

    options = Options()
    options.image = "/image.raw"
    options.partitions, options.snapshots, options.volumes = map(option_text, case)
    original = dfvfs_helpers.DFVFSFileSystemHelper.GetBasePathSpecs
    dfvfs_helpers.DFVFSFileSystemHelper.GetBasePathSpecs = record
    try:
        helper = dfvfs_helpers.ParseDFVFSCLIArguments(options)
    finally:
        dfvfs_helpers.DFVFSFileSystemHelper.GetBasePathSpecs = original
    require(helper is None, "helper without a file system")
    equal(len(calls), 1, "number of scans")
    source, found = calls[0]
    equal(source, options.image, "image")
    for name, value in (("partitions", partitions), ("snapshots", snapshots),
                        ("volumes", volumes)):
        actual = getattr(found, name) or []
        if actual not in (["all"], ["none"]):
            actual = sorted(int(str(number), 10) for number in actual)
        equal(actual, option_numbers(value), name)


NATIVE = ["APM", "EXT", "FAT", "GPT", "HFS", "NTFS"]


def preferences():
    return {name: getattr(definitions, f"PREFERRED_{name}_BACK_END") for name in NATIVE}


def check_back_ends(case, ctx):
    """A history of arguments against a table of what is preferred."""
    ctx.note(len(set(case)) > 2, repr(case), case)
    before = preferences()
    try:
        expected = dict(before)
        for back_end in case:
            dfvfs_helpers.SetDFVFSBackEnd(back_end)
            if back_end == "TSK":
                expected = dict.fromkeys(NATIVE, "TSK")
                expected["GPT"] = "TSK_PARTITION"
            elif back_end in NATIVE:
                expected[back_end] = back_end
            equal(preferences(), expected, f"preferred back-ends after {back_end}")
    finally:
        for name, value in before.items():
            setattr(definitions, f"PREFERRED_{name}_BACK_END", value)


TOOLS = ["indexeddb", "jump_list", "leveldb", "spotlight_storedb", "unified_logging"]


def check_no_file_system(case, ctx):
    name, data = case
    path = ctx.write(data, "image.raw")
    ctx.note(len(data) > 1024, data, name)
    try:
        result = scripts.run(name, "--image", path, "/file")
    except (OSError, errors.ParseError):
        return
    if result.status == 0:
        raise Violation("exits with 0 for an image without a file system")


# Those by which unified_logging.py recognizes the files.
SIGNATURES = (b"hcsd", b"\x99\x88\x77\x66", b"\xb0\xbb\x30\x00", b"Ts\x20\x00")
DEBUG = st.sampled_from([[], ["-d"]])
SUBTESTS = [
    SubTest("helper", TREE, check_tree, 80, 4000),
    SubTest("partitions", PARTITIONS, check_partitions, 60, 2500),
    SubTest("options", st.tuples(
        ITEMS, st.one_of(ITEMS, st.just("none")), ITEMS), check_options, 60, 2000),
    SubTest("back ends", st.lists(st.sampled_from(NATIVE + ["TSK", "TSK", None, "other"]),
                                  min_size=1, max_size=8), check_back_ends, 60, 2000),
    SubTest("indexeddb", st.tuples(
        PLACE, st.just("000005.ldb"),
        indexeddb_files.FILE.map(indexeddb_files.build), DEBUG),
        check_file("indexeddb"), 50, 1500),
    SubTest("leveldb", st.tuples(
        PLACE, st.sampled_from(["MANIFEST-000001", "000003.log", "000005.ldb"]), st.just(0),
        DEBUG).flatmap(lambda c: st.tuples(
            st.just(c[0]), st.just(c[1]), leveldb_files.GENERATORS[
                {"M": "leveldb_descriptor", "g": "leveldb_log", "b": "leveldb_table"}[
                    c[1][0] if c[1][0] == "M" else c[1][-1]]], st.just(c[3]))),
        check_file("leveldb"), 60, 2000),
    SubTest("jump_list", st.tuples(
        PLACE, st.just("5afe4de1b92fc382.destinations"), st.builds(
            detail_tools.jump_list_data, st.booleans(),
            st.lists(detail_tools.SHORTCUT, max_size=3), st.integers(1, 4)), DEBUG),
        check_file("jump_list"), 50, 1500),
    SubTest("spotlight_storedb", st.tuples(
        PLACE, spotlight_store.store(),
        st.sampled_from([[], ["-d"], ["--item", "1"]])), check_spotlight, 50, 1500),
    SubTest("unified_logging", st.tuples(
        trace_log_entries.MODEL, st.sampled_from([[], ["-d"], ["--format", "json"]])),
        check_trace, 60, 2000),
    SubTest("log support", st.tuples(
        PLACE, st.just("file"), st.one_of(
            *log_support_files.GENERATORS.values()).filter(
                lambda d: d[:4] in SIGNATURES), DEBUG),
        check_file("unified_logging"), 40, 1000),
    SubTest("no file system", st.tuples(st.sampled_from(TOOLS), st.integers(0, 5000).map(
        lambda n: b"\xa5" * n)), check_no_file_system, 15, 200),
]
