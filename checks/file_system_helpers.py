"""P08: file system helpers."""

import os

import dt
from vf import SubTest, Violation, equal, require, st

from dtformats import file_system

PROPERTY = "P08"
TITLE = "The native and dfVFS file system helpers agree on paths, files and folders"
STATEMENT = (
    "For every tree of files and directories and every path in or outside of it, the native and the dfVFS file system "
    "helper report the same: the same path segments, and joining the segments of an absolute path gives "
    "the normalized path back; base name and directory name recombine to the path; existence, file size, directory entries and "
    "file content are those of the file system; files are opened for reading only.")
QUANTIFIER = "every directory tree and path"
WHY = "The tests use one existing path per function."
FILES = ["dtformats/file_system.py", "dtformats/dfvfs_helpers.py"]
MECHANISM = [
    ("native helper", "file_system.NativeFileSystemHelper"),
    ("dfVFS helper", "dfvfs_helpers.DFVFSFileSystemHelper"),
]
OBSERVE = ["results of the helper methods"]
TECHNIQUE = "differential property-based testing of both helpers and the operating system"
RULE = "a tree with at least one directory with an entry in it"
ASSUMPTIONS = ["POSIX path separators"]

SEGMENT = st.one_of(
    dt.NAME.filter(lambda n: n not in (".", "..")),
    st.text(alphabet="ab \\:é漢.-_", min_size=1, max_size=6).filter(
        lambda n: n not in (".", "..")))
TREE = st.lists(
    st.tuples(st.lists(SEGMENT, min_size=1, max_size=3), st.booleans(),
              st.binary(max_size=100)), max_size=6)
CASE = st.tuples(TREE, st.lists(SEGMENT, min_size=1, max_size=3))


def helpers():
    result = [("native", file_system.NativeFileSystemHelper())]
    try:
        from dfvfs.lib import definitions
        from dfvfs.path import factory

        from dtformats import dfvfs_helpers
    except ImportError:
        return result
    helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
    helper.OpenFileSystem(factory.Factory.NewPathSpec(
        definitions.TYPE_INDICATOR_OS, location="/"))
    result.append(("dfVFS", helper))
    return result


def check_tree(case, ctx):
    tree, absent = case
    with ctx.directory() as directory:
        files, directories = {}, {directory}
        for segments, is_file, data in tree:
            path = os.path.join(directory, *segments)
            try:
                if is_file:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    if os.path.isdir(path):
                        continue
                    with open(path, "wb") as file_object:
                        file_object.write(data)
                    files[path] = data
                else:
                    os.makedirs(path, exist_ok=True)
            except (FileExistsError, NotADirectoryError):
                continue
        for parent, names, _ in os.walk(directory):
            directories.update(os.path.join(parent, name) for name in names)
        ctx.note(len(directories) > 1, repr(case), case)
        missing = os.path.join(directory, "!missing", *absent)
        for name, helper in helpers():
            for path in sorted(files):
                what = f"{name:s} {path[len(directory):]!r}"
                require(helper.CheckFileExistsByPath(path), f"{what:s}: exists")
                equal(helper.GetFileSizeByPath(path), len(files[path]), f"{what:s}: size")
                file_object = helper.OpenFileByPath(path)
                equal(file_object.tell(), 0, f"{what:s}: offset")
                equal(file_object.read(), files[path], f"{what:s}: content")
                file_object.seek(0, os.SEEK_SET)
                equal(file_object.read(3), files[path][:3], f"{what:s}: content")
                if hasattr(file_object, "writable"):
                    require(not file_object.writable(), f"{what:s}: writable")
                file_object.close()
            for path in sorted(directories):
                what = f"{name:s} {path[len(directory):]!r}"
                require(helper.CheckFileExistsByPath(path), f"{what:s}: exists")
                equal(sorted(helper.ListDirectory(path)), sorted(os.listdir(path)),
                      f"{what:s}: entries")
            require(not helper.CheckFileExistsByPath(missing), f"{name:s}: missing")
            for path in sorted(files) + sorted(directories) + [missing]:
                what = f"{name:s} {path[len(directory):]!r}"
                segments = list(helper.SplitPath(path))
                equal(segments, [s for s in path.split("/") if s], f"{what:s}: split")
                equal(helper.JoinPath(segments), path, f"{what:s}: join")
                base, parent = helper.BasenamePath(path), helper.DirnamePath(path)
                equal(base, segments[-1], f"{what:s}: base name")
                equal(parent, "/" + "/".join(segments[:-1]), f"{what:s}: directory name")
        for path in files:
            with open(path, "rb") as file_object:
                equal(file_object.read(), files[path], "file changed")
        try:
            file_system.NativeFileSystemHelper().OpenFileByPath(missing)
        except OSError:
            pass
        else:
            raise Violation("missing file opened")


PATHS = st.tuples(
    st.lists(SEGMENT, max_size=6), st.lists(st.integers(1, 3), min_size=8, max_size=8),
    st.booleans())


def check_paths(case, ctx):
    segments, repeats, trailing = case
    path = "/" * repeats[0] + "".join(
        segment + "/" * repeat for segment, repeat in zip(segments, repeats[1:]))
    if not trailing:
        path = path.rstrip("/") or "/"
    ctx.note(len(segments) > 1, path, path)
    helper = file_system.NativeFileSystemHelper()
    equal(list(helper.SplitPath(path)), segments, f"segments of {path!r}")
    joined = helper.JoinPath(segments)
    equal(joined, "/" + "/".join(segments), "joined path")
    equal(list(helper.SplitPath(joined)), segments, "segments of the joined path")


SUBTESTS = [
    SubTest("tree", CASE, check_tree, 250, 4000),
    SubTest("paths", PATHS, check_paths, 1000, 20000),
]
