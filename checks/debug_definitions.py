"""P07: debug definition files."""

import io
import re
import sys

import dt
import targets
import yaml
from vf import SubTest, Violation, equal, require, st

from dtformats import data_format
from dtformats import errors
from dtformats import yaml_definitions_file

PROPERTY = "P07"
TITLE = "Debug definitions are read as written and rejected when incomplete"
STATEMENT = (
    "For every YAML file of debug definitions, reading it yields one definition per "
    "document, in order, with its data type map and its attributes in the order written, "
    "each with its name, description and format; standard formats and custom formats "
    "resolve to the formatter the format names. A definition that is empty, has an "
    "unknown key, no data type map or no attributes, or an attribute without name, "
    "description or format, with a name that was already used or with an unsupported "
    "format is rejected as a parse error. Every format in the "
    "debug definitions that come with the library resolves to a formatter that exists.")
QUANTIFIER = "every sequence of debug definitions, valid or with any defect"
WHY = "The tests read one file with one definition and reject four others."
FILES = ["dtformats/yaml_definitions_file.py", "dtformats/data_format.py",
         "dtformats/*.debug.yaml"]
MECHANISM = [
    ("definition reader", "yaml_definitions_file.YAMLDebugDefinitionsFile"),
    ("formatter resolution", "data_format.BinaryDataFormat.ReadDebugInformationFile"),
]
OBSERVE = ["definitions yielded by ReadFromFile", "result of ReadDebugInformationFile"]
TECHNIQUE = "property-based round-trip testing and generated defects"
RULE = "at least two attributes, or a definition with a defect"
ASSUMPTIONS = []

STANDARD = ["binary_data", "decimal", "floating_point", "hexadecimal_2digits",
            "hexadecimal_4digits", "hexadecimal_8digits", "string", "uuid"]
IDENTIFIER = st.text(
    alphabet="abcdefghijklmnopqrstuvwxyz_0123456789", min_size=1, max_size=10).map(
    lambda t: "n" + t)
CUSTOM = IDENTIFIER.map(lambda t: f"custom:{t:s}")
ATTRIBUTE = st.tuples(
    IDENTIFIER, dt.ASCII1.filter(lambda t: t.strip()),
    st.one_of(st.sampled_from(STANDARD), CUSTOM))
DEFINITION = st.tuples(
    IDENTIFIER, st.lists(ATTRIBUTE, min_size=1, max_size=8, unique_by=lambda a: a[0]))
FILE = st.lists(DEFINITION, max_size=5, unique_by=lambda d: d[0])

# What a caller observes of the formatter a standard format resolves to.
SAMPLES = {
    "decimal": (-17, "-17"), "floating_point": (1.5, "1.500000"),
    "hexadecimal_2digits": (5, "0x05"), "hexadecimal_4digits": (5, "0x0005"),
    "hexadecimal_8digits": (5, "0x00000005"), "string": ("ab\0", "ab"),
    "uuid": ("1-2", "1-2"),
}


def documents(definitions):
    return [
        {"data_type_map": name, "attributes": [
            {"name": n, "description": d, "format": f} for n, d, f in attributes]}
        for name, attributes in definitions]


def check_roundtrip(definitions, ctx):
    text = "# comment\n---\n" + yaml.safe_dump_all(
        documents(definitions), sort_keys=False) if definitions else ""
    path = ctx.write(text.encode("utf-8"), "d.debug.yaml")
    ctx.note(any(len(a) > 1 for _, a in definitions), text, definitions)
    reader = yaml_definitions_file.YAMLDebugDefinitionsFile()
    result = [
        (d.data_type_map,
         [(key, a.name, a.description, a.format) for key, a in d.attributes.items()])
        for d in reader.ReadFromFile(path)]
    equal(result, [(name, [(n, n, d, f) for n, d, f in attributes])
                   for name, attributes in definitions], "definitions")
    callbacks = {}
    for _, attributes in definitions:
        for n, _, f in attributes:
            if f.startswith("custom:") and len(f) % 3:
                callbacks[f[7:]] = f"_Format{f[7:]:s}"
    cls = type("Test", (data_format.BinaryDataFormat,), {
        "_DEFINITION_FILES_PATH": ctx.scratch})
    information = cls.ReadDebugInformationFile(
        "d.debug.yaml", custom_format_callbacks=callbacks)
    equal(list(information), [name for name, _ in definitions], "data type maps")
    formatter = cls()
    for name, attributes in definitions:
        equal([entry[:2] for entry in information[name]],
              [(n, d) for n, d, _ in attributes], f"attributes of {name:s}")
        for entry, (_, _, f) in zip(information[name], attributes):
            if f.startswith("custom:"):
                equal(entry[2], callbacks.get(f[7:]), f"formatter of {f:s}")
                continue
            function = getattr(formatter, entry[2])
            if f in SAMPLES:
                value = function(SAMPLES[f][0])
                value = value[0] if isinstance(value, tuple) else value
                equal(value, SAMPLES[f][1], f"formatter of {f:s}")
            else:
                value = function(b"\x01\x02")
                require(value[0].startswith("0x00000000  01 02"), "binary_data")


DEFECT = st.tuples(
    st.lists(DEFINITION, min_size=1, max_size=3), st.integers(0, 50),
    st.integers(0, 50), st.sampled_from(
        ["empty", "unknown key", "no map", "no attributes", "empty attributes",
         "name", "description", "format", "empty name", "empty description",
         "empty format", "duplicate", "unsupported"]),
    IDENTIFIER)


def check_defects(case, ctx):
    definitions, which, index, defect, word = case
    docs = documents(definitions)
    which %= len(docs)
    doc = docs[which]
    attributes = doc["attributes"]
    attribute = attributes[index % len(attributes)]
    if defect == "empty":
        docs[which] = {}
    elif defect == "unknown key":
        near = ["name", "format", "description", "Attributes", "attribute", "data_type_maps",
                "size", "debug", word + "x"]
        doc[near[index % len(near)]] = "value"
    elif defect == "no map":
        del doc["data_type_map"]
    elif defect == "no attributes":
        del doc["attributes"]
    elif defect == "empty attributes":
        doc["attributes"] = []
    elif defect == "duplicate":
        attributes.append(dict(attribute, description="Other"))
    elif defect == "unsupported":
        near = [f + "s" for f in STANDARD] + [f.upper() for f in STANDARD] + [
            f"{word}:{STANDARD[0]}", "custom", f"custom_{word}", f"Custom:{word}",
            f" custom:{word}", f"customs:{word}", f"x{word}:custom:"]
        near += [word if word not in STANDARD + ["hexadecimal"] else "n"] * 5
        attribute["format"] = near[index % len(near)]
    elif defect.startswith("empty "):
        attribute[defect[6:]] = ""
    else:
        del attribute[defect]
    ctx.note(True, repr(case), (defect, docs[which]), labels=[defect])
    text = yaml.safe_dump_all(docs, sort_keys=False)
    reader = yaml_definitions_file.YAMLDebugDefinitionsFile()
    result = []
    try:
        for definition in reader._ReadFromFileObject(io.StringIO(text)):
            result.append(definition.data_type_map)
    except errors.ParseError:
        equal(result, [d["data_type_map"] for d in docs[:which]],
              "definitions before the defect")
        return
    raise Violation(f"definition with defect {defect:s} was accepted")


def _shipped():
    """Returns (module name, data type map) -> list of (class, entries)."""
    result = {}
    seen = set()
    modules = {target.cls.__module__ for target in targets.TARGETS}
    for module_name in sorted(modules):
        for _, cls in sorted(vars(sys.modules[module_name]).items()):
            information = getattr(cls, "_DEBUG_INFORMATION", None)
            if not isinstance(cls, type) or not information or cls in seen:
                continue
            if not issubclass(cls, data_format.BinaryDataFormat):
                continue
            seen.add(cls)
            for map_name, entries in information.items():
                result.setdefault((module_name, map_name), []).append((cls, entries))
    return sorted(result.items(), key=lambda entry: entry[0])


SHIPPED = _shipped()


def check_shipped(index, ctx):
    # Every definition, starting at the generated one.
    for number in range(len(SHIPPED)):
        check_definition(*SHIPPED[(index + number) % len(SHIPPED)], ctx)


def check_definition(key, uses, ctx):
    # Parsers of one module may share a file and each use a part of it.
    ctx.note(True, repr(key), key)
    resolved = {}
    for cls, entries in uses:
        for name, description, callback in entries:
            where = f"{key[0]:s}: {key[1]:s}.{name:s}"
            require(isinstance(description, str) and description,
                    f"{where:s}: description")
            require(re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", name), f"{where:s}: name")
            exists = callback is not None and callable(getattr(cls, callback, None))
            require(exists or callback is None,
                    f"{where:s}: formatter {callback!r} does not exist")
            resolved[where] = resolved.get(where, False) or exists
    for where, exists in resolved.items():
        require(exists, f"{where:s}: format has no formatter")


SUBTESTS = [
    SubTest("roundtrip", FILE, check_roundtrip, 500, 8000),
    SubTest("defects", DEFECT, check_defects, 2000, 30000),
    SubTest("shipped", st.integers(0, max(0, len(SHIPPED) - 1)), check_shipped,
            10, 20, shards=1),
]
