"""P48: command line conduct of the tools and their debug output."""

import collections
import os

import detail_tools
import dt
import ext2
import generators
import scripts
import targets
from vf import SubTest, Violation, equal, require, st

from dtformats import amcache

PROPERTY = "P48"
TITLE = "Every tool takes a source, exits with 0 or 1 and adds a full dump with -d"
STATEMENT = (
    "Every script of this repository without a source prints that it is missing and its "
    "usage, and exits with 1 (also with an --image), and with a source that does not "
    "exist it fails. For every "
    "valid file, with the name that its format requires, the script of the format exits "
    "with 0 and prints its heading (cpio.py also the format and size of the archive), "
    "for utmp and utmpx, WMF and EMF, each Chrome cache, Firefox cache, LevelDB (also of "
    "less than 8 bytes) and jump list file type alike; with -d or --debug it prints all of "
    "that plus, once and in order, exactly the debug output that the library has for the "
    "file, and without it nothing of that. A Firefox cache file of another name is not "
    "supported.")
QUANTIFIER = "every script, every valid file of its format, with and without debug"
WHY = "The scripts have no tests."
FILES = ["scripts/*.py", "dtformats/output_writers.py"]
MECHANISM = [
    ("arguments, file types", "Main of each of the scripts"),
    ("writer", "dtformats/output_writers.py StdoutWriter"),
]
OBSERVE = ["standard output and exit status of the scripts"]
TECHNIQUE = (
    "property-based differential testing of the output of the tools with and without "
    "debug mode against that of the library, for generated files")
RULE = "ten or more lines of debug output"
ASSUMPTIONS = [
    "the output of the tools themselves and of the library may be interleaved by line",
    "unified_logging.py (tracev3) and wmi_repository.py read other files too: see P46, P47",
    "timesync files are recognized if their first record is of the usual header size"]
GENERATORS = {}

# Per target: the script and what it prints, or None if other properties have it.
TOOLS = {
    "alias_data": ("alias_data", "Mac OS com.apple.loginitems.plist Alias information:"),
    "amcache": ("amcache", "AMCache information:"),
    "asl": ("asl", "Apple System Log information:"),
    "bookmark_data": ("bookmark_data",
                      "Mac OS backgrounditems.btm bookmark information:"),
    "bsm": ("bsm", "BSM event auditing information:"),
    "chrome_cache_data": ("chrome_cache", ""),
    "chrome_cache_index": ("chrome_cache", ""),
    "cpio": ("cpio", None),
    "cups_ipp": ("cups_ipp", "CUPS Internet Printing Protocol (IPP) information:"),
    "detection_history": ("detection_history",
                          "Windows Defender scan DetectionHistory information:"),
    "firefox_cache1_map": ("firefox_cache1", "Firefox cache version 1 information:"),
    "firefox_cache1_block": ("firefox_cache1", "Firefox cache version 1 information:"),
    "fseventsd": ("fseventsd", "MacOS fseventsd information:"),
    "gzipfile": ("gzipfile", "GZip information:"),
    "indexeddb": ("indexeddb", None),
    "job": ("job", None),
    "automatic_destinations": ("jump_list", None),
    "custom_destinations": ("jump_list", None),
    "keychain": ("keychain", None),
    "leveldb_log": ("leveldb", "LevelDB database file information:"),
    "leveldb_descriptor": ("leveldb", "LevelDB database file information:"),
    "leveldb_table": ("leveldb", None),
    "recycle_bin": ("recycle_bin", None),
    "recycler": ("recycler", "Recycler INFO2 file information:"),
    "rp_change_log": ("rp_change_log", None),
    "rp_log": ("rp_log", "Windows Restore Point rp.log information:"),
    "safari_cookies": ("safari_cookies", "Safari Cookies information:"),
    "systemd": ("systemd", "Systemd journal information:"),
    "tzif": ("tzif", "Timezone information:"),
    "usn_journal": ("usn_journal", None),
    "utmp": ("utmp", "utmp information:"),
    "utmpx": ("utmp", "utmp information:"),
    "aul_dsc": ("unified_logging", None),
    "aul_uuidtext": ("unified_logging",
                     "Apple Unified Logging and Activity Tracing information:"),
    "aul_timesync": ("unified_logging",
                     "Apple Unified Logging and Activity Tracing information:"),
    "emf": ("wemf", "Windows Enhanced Metafile information:"),
    "wmf": ("wemf", "Windows Metafile information:"),
}
EXTRA = {"amcache": targets.Target("amcache", amcache.WindowsAMCacheFile)}


# The shortcuts of P47 have data blocks that the tool can show.
SAMPLES = {target: st.tuples(
    st.just("file"), st.builds(
        detail_tools.jump_list_data, st.just(target.startswith("automatic")),
        st.lists(detail_tools.SHORTCUT, max_size=3), st.integers(1, 4)))
         for target in ("automatic_destinations", "custom_destinations")}


def subsequence(part, whole):
    """The first element of part that is not in whole after the others, or None."""
    left = iter(whole)
    for element in part:
        if not any(element == other for other in left):
            return element
    return None


def check_target(target):
    name, heading = TOOLS[target]
    driver = EXTRA.get(target) or targets.BY_NAME[target]

    def check(case, ctx):
        file_name, data = case[0]
        path = ctx.write(data, file_name)
        recorder = dt.Recorder()
        driver.run(path, True, recorder)
        report = recorder.text
        ctx.note(report.count("\n") > 9, data, file_name, labels=[target])
        plain = scripts.run(name, path)
        equal(plain.status, 0, f"exit status of {name}.py")
        if heading is not None:
            equal(plain.text.strip("\n"), heading, f"output of {name}.py")
        elif target == "cpio":
            archive = driver.create(False, None)
            archive.Open(path)
            archive.Close()
            equal(plain.text, (
                f"CPIO archive information:\n\tFormat\t\t: {archive.file_format}\n"
                f"\tSize\t\t: {archive.size:d} bytes\n\n"), "output of cpio.py")
        full = scripts.run(name, case[1], path)
        equal(full.status, 0, f"exit status of {name}.py {case[1]}")
        if full.text == report + plain.text:
            return
        lines = [[line for line in text.split("\n") if line]
                 for text in (full.text, report, plain.text)]
        for part, what in ((lines[1], "debug output"), (lines[2], "own output")):
            missing = subsequence(part, lines[0])
            if missing is not None:
                raise Violation(f"line of {what} not shown: {missing!r}")
        excess = collections.Counter(lines[0]) - collections.Counter(lines[1] + lines[2])
        equal(excess, collections.Counter(), "other lines")
    return check


SCRIPTS = sorted(
    name[:-3] for name in os.listdir(scripts.SCRIPTS) if name.endswith(".py"))
IMAGE = ["--image"]
DEFINITION = ["vhdx.yaml"]
WITH_IMAGE = ["indexeddb", "jump_list", "leveldb", "spotlight_storedb", "unified_logging"]
MISSING = {"analyzer": "Definition file missing.", "prefetch_hash": "Path missing."}


def check_conduct(case, ctx):
    name, path = case
    ctx.note(True, repr(case), name, labels=[name])
    if path in (None, IMAGE, DEFINITION):
        arguments = [] if path is None else path
        if path == IMAGE:
            arguments = ["--image", ctx.write(b"", "image.raw")]
            ext2.write(arguments[1], {"a": b"x"})
        result = scripts.run(name, *arguments)
        equal(result.status, 1, "exit status without source")
        text = "Source file missing."
        if path is None:
            text = MISSING.get(name, text)
        equal(result.text.split("\n")[0], text, "first line")
        require("usage: " in result.text, "no usage shown")
    elif name not in MISSING:
        try:
            result = scripts.run(name, *path)
        except (OSError, dt.errors.ParseError):
            return
        if result.status == 0:
            raise Violation("exits with 0 for a source that does not exist")


def check_firefox_name(case, ctx):
    name, (_, data) = case
    ctx.note(True, data, name)
    result = scripts.run("firefox_cache1", ctx.write(data, name))
    equal(result.status, 1, "exit status")
    equal(result.text.split("\n")[0], "Unsupported Firefox cache version 1 file name.",
          "output")


MODE = st.sampled_from(["-d", "--debug"])
SUBTESTS = [
    SubTest(target, st.tuples(
        SAMPLES[target] if target in SAMPLES else generators.files(target), MODE).filter(
            lambda case, known=target != "aul_timesync": known or (
                case[0][1][:4] in (b"\xb0\xbb\x30\x00", b"Ts\x20\x00"))), check_target(target),
            20, 800) for target in TOOLS
] + [
    SubTest("arguments", st.tuples(st.sampled_from(SCRIPTS), st.sampled_from(
        [None, ["/nonexistent/file"], ["-d", "/nonexistent/a/file"]])),
            check_conduct, 150, 400),
    SubTest("definition without source", st.tuples(
        st.just("analyzer"), st.just(DEFINITION)), check_conduct, 1, 1),
    SubTest("image without source", st.tuples(
        st.sampled_from(WITH_IMAGE), st.just(IMAGE)), check_conduct, 12, 12),
    SubTest("firefox name", st.tuples(
        st.sampled_from(["_CACHE_MAP", "CACHE_001_", "_cache_map_", "x"]),
        generators.files("firefox_cache1_map")), check_firefox_name, 10, 40),
]
