"""P05: debug mode only adds output."""

import generators
import parser_history
from vf import SubTest, Violation, equal, require, st

PROPERTY = "P05"
TITLE = "Debug mode adds output and changes nothing else"
STATEMENT = (
    "For every format and every file, valid or damaged, a parser in debug mode accepts or "
    "rejects the file as one without debug mode does and then has the same public "
    "attributes and returns the same entries; without debug mode it writes nothing. Neither "
    "changes the file.")
QUANTIFIER = "every format, every generated file and damage to it"
WHY = (
    "The tests compare neither; code under 'if self._debug' runs in a few tests with one "
    "file each.")
FILES = ["dtformats/*.py"]
MECHANISM = [("debug output", "every method under if self._debug"),
             ("read positions", "data_format.BinaryDataFile, data_range.DataRange")]
OBSERVE = ["public attributes and entries", "debug output", "error or not"]
TECHNIQUE = (
    "property-based metamorphic testing: the same generated or damaged file read with and "
    "without debug mode")
RULE = "a file that is accepted, with ten lines of debug output, or a damaged file"
ASSUMPTIONS = [
    "the debug mode has an output writer",
    "in debug mode WMI files with damage to pages or cells that are not used are rejected"]
GENERATORS = {}
# Of these formats debug mode reads pages and cells that are not used otherwise.
COMPLETE = ("wmi_folder", "wmi_index", "wmi_rep")


def check_target(target):
    driver = generators.ALL_DRIVERS[target]

    def check(case, ctx):
        with ctx.directory() as root:
            check_files(case, ctx, root)

    def check_files(case, ctx, root):
        item, (kind, position) = case
        path, contents = generators.place(
            target, item, root, parser_history.damage(kind, position))
        quiet = parser_history.Reader(driver, False).read(path)
        full = parser_history.Reader(driver, True).read(path)
        # An error while the entries are read is an error too.
        quiet, full = [r[0] if len(r) == 2 and len(r[0]) == 1 and isinstance(r[0][0], str)
                       else r for r in (quiet, full)]
        accepted = len(quiet) == 2
        ctx.note(kind or (accepted and full[-1].count("\n") > 9), repr(list(contents.values())),
                 (target, kind), labels=[f"accepted:{accepted}"])
        if accepted and target in COMPLETE and full == ["ParseError"]:
            require(kind, "valid file rejected in debug mode")
            return
        equal(len(full) == 2, accepted, f"accepted in debug mode ({full[0]!s:.60})")
        if accepted:
            if full[0] != quiet[0]:
                parser_history.compare([full[0], ""], [quiet[0], ""], "debug mode")
            equal(quiet[1], "", "output without debug mode")
        else:
            equal(full, quiet, "error in debug mode")
        for name, data in contents.items():
            if generators.content(name) != data:
                raise Violation("file changed")
    return check


SUBTESTS = [
    SubTest(target, st.tuples(generators.items(target), parser_history.DAMAGE),
            check_target(target), 60, 2000)
    for target in sorted(generators.ALL_DRIVERS)
]
