"""P39: classes, instances, namespaces and object records of WMI CIM repositories 2.1 and 2.2."""

import os
import struct

import dt
import wmi
import wmi_namespaces
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import wmi_repository

PROPERTY = "P39"
TITLE = "WMI repositories yield their classes, instances, namespaces and records"
STATEMENT = (
    "For every CIM repository of format version 2.1 or 2.2 (Index.btr, Objects.data and the "
    "mapping files), opened by its directory: GetIndexKeys yields the keys of the index; "
    "GetObjectRecordByKey returns, for a key that ends in a record reference, the data of exactly "
    "that object record, also if it continues on the following mapped pages, and None for any "
    "other key; ClassDefinitionReference and ClassDefinition read the super class name, name, "
    "qualifiers and properties (index, type, value offset, qualifiers) of every class; "
    "GetInstances yields one instance for every I_ or IL_ key, in index order, with the class "
    "name, derivation, super class name, dynasty and the value of every property the class and "
    "its super classes define (integers, reals, booleans, strings, date-times, references and "
    "string arrays, None where not set); GetNamespaces yields the __NAMESPACE instances with "
    "their full namespace path. Repositories with damaged records, missing files, unknown record "
    "references or class definitions, or class definitions derived from themselves are rejected "
    "with ParseError.")
QUANTIFIER = ("all class hierarchies, property layouts and values, record and page layouts, "
              "index trees and namespace hierarchies")
WHY = ("The tests read no class definition, instance or object record at all: there are no "
       "Objects.data test files.")
FILES = ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml",
         "dtformats/wmi_repository.debug.yaml"]
MECHANISM = [
    ("records", "ObjectsDataFile.GetPage, _ReadObjectDescriptors, ReadObjectRecordDataSegment; "
                "CIMRepository._GetObjectRecord"),
    ("classes", "ClassDefinition.ReadClassDefinitionBlock, ClassValueDataMap.Build"),
    ("instances", "Instance.ReadInstanceBlockData, CIMRepository.GetInstances"),
    ("namespaces", "CIMRepository._ReadNamespacesFromObjectRecords"),
]
OBSERVE = ["GetIndexKeys, GetObjectRecordByKey, GetInstances, GetNamespaces",
           "ClassDefinition, ClassDefinitionReference and InstanceReference attributes",
           "debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more instances, or a class with a super class, or a record on several pages"
ASSUMPTIONS = [
    "namespace names differ by more than case and match the case of the well-known namespaces",
    "class names are unique across namespaces", "strings are stored in Windows codepage 1252",
    "arrays other than string arrays and embedded objects are not read (None)"]

FILENAMES = {
    "lower": str.lower, "upper": str.upper, "mixed": lambda name: name[:3].upper() + name[3:]}
IDENT = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789",
                min_size=1, max_size=12)
CP1252 = st.text(alphabet="abcXYZ 019.:%_-{}\\\u20ac\u00e9\u00df\u0178\t\n", max_size=20)
TEXT = st.one_of(CP1252, st.integers(1000, 20000).map(lambda n: "x" * (n - 1) + "y"))
COMMON = ["ROOT", "ROOT\\CIMV2", "ROOT\\Microsoft\\Windows", "ROOT\\subscription", "ROOT\\WMI"]
WELL_KNOWN = wmi_namespaces.NAMES
ARRAYS = [0x2002, 0x2003, 0x2004, 0x200B, 0x2011, 0x2013, 0x2015, 0x2065, 13, 0x200D]
FLOAT32 = st.floats(width=32, allow_nan=False, allow_infinity=False)
NUMBER_OF_TYPE = sorted(wmi.FORMATS) + list(wmi.STRINGS) + [wmi.STRING_ARRAY] + ARRAYS


def value_of(number, text=CP1252):
    if number == 11:
        return st.booleans()
    if number == 4:
        return FLOAT32
    if number == 5:
        return st.floats(allow_nan=False)
    if number in wmi.FORMATS:
        bits = 8 * wmi.SIZES[number]
        return dt.s(bits) if wmi.FORMATS[number][1].islower() else dt.u(bits)
    if number in wmi.STRINGS:
        return st.one_of(st.none(), text)
    if number == wmi.STRING_ARRAY:
        return st.one_of(st.none(), st.lists(CP1252, max_size=4))
    return st.sampled_from([None, 1])


def type_name(number):
    for name, value in wmi.TYPES.items():
        if value == number & 0xDFFF:
            return name
    return "object"


@st.composite
def qualifiers(draw, exclude=()):
    names = draw(st.lists(st.one_of(
        st.sampled_from(["key", "read", "write", "provider", "dynamic", "Abstract", "Locale",
                         "Description"]), IDENT), max_size=4, unique_by=str.lower))
    result = []
    for name in names:
        if name.lower() in exclude:
            continue
        number = draw(st.sampled_from(sorted(wmi.FORMATS) + [8, 8, 11, 0x2008]))
        value = draw(CP1252) if number == 8 else draw(value_of(number))
        result.append((name, draw(st.booleans()), draw(st.sampled_from([0, 1, 0x40, 0xFF])),
                       number, value))
    return result


@st.composite
def prop(draw, name, number, offset, index, typed=True):
    items = draw(qualifiers(exclude=("type",)))
    if typed:
        text = type_name(number)
        text = draw(st.sampled_from([text, text.upper(), text.title()]))
        if number in (13, 102) or draw(st.integers(0, 6)) == 0:
            text += ":" + draw(IDENT)
        items.insert(draw(st.integers(0, len(items))), (
            draw(st.sampled_from(["type", "type", "CIMTYPE", "Type"])).replace("CIMTYPE", "type"),
            draw(st.booleans()), 0, 8, text))
    return {"name": name, "predefined": draw(st.booleans()), "type": number, "offset": offset,
            "index": index, "level": draw(st.integers(0, 3)), "qualifiers": items}


@st.composite
def class_list(draw, namespace=False, maximum=4):
    """Class definitions in an order in which super classes come first."""
    chained = maximum > 3 and draw(st.integers(0, 2)) == 0
    names = draw(st.lists(IDENT.filter(lambda name: name.upper() != "__NAMESPACE"),
                          min_size=4 if chained else 1,
                          max_size=maximum, unique_by=str.upper))
    result = []
    inherited = {}
    for position, name in enumerate(names):
        parent = None
        if result and (draw(st.integers(0, 2)) or chained):
            parent = result[-1] if chained else draw(st.sampled_from(result))
        known, end = inherited[parent["name"]] if parent else ({}, 0)
        known = dict(known)
        properties = []
        used = set()
        for _ in range(draw(st.integers(0, 5))):
            if known and draw(st.integers(0, 3)) == 0:
                lower = draw(st.sampled_from(sorted(known)))
                if lower in used:
                    continue
                spelled, number, offset = known[lower]
                typed = draw(st.booleans())
                if typed:
                    spelled = draw(st.sampled_from([spelled, spelled.upper()]))
                    known[lower] = (spelled, number, offset)
            else:
                spelled = draw(st.one_of(IDENT, st.sampled_from(["key", "type", "Name"])))
                lower = spelled.lower()
                if lower in known or lower in used:
                    continue
                number = draw(st.sampled_from(NUMBER_OF_TYPE))
                offset = end + draw(st.sampled_from([0, 0, 0, 1, 2]))
                end = offset + wmi.SIZES.get(number, 4)
                typed = True
                known[lower] = (spelled, number, offset)
            used.add(lower)
            properties.append(draw(prop(spelled, number, offset, len(properties), typed)))
        inherited[name] = (known, end)
        super_name = None
        if parent:
            super_name = draw(st.sampled_from([parent["name"], parent["name"].upper()]))
        result.append({
            "name": name, "super": super_name, "qualifiers": draw(qualifiers()),
            "properties": draw(st.permutations(properties)), "unknown": draw(dt.u(8)),
            "default": draw(st.binary(max_size=6)), "pad": draw(st.sampled_from([0, 0, 3])),
            "methods": draw(st.sampled_from([b"", struct.pack("<I", 0x80000004) + b"abc"])),
            "time": draw(dt.FILETIME)})
    if namespace:
        number = 8
        properties = [draw(prop("Name", number, 0, 0))]
        result.append({
            "name": "__NAMESPACE", "super": None, "qualifiers": [], "properties": properties,
            "unknown": 0, "default": b"", "pad": 0, "methods": b"", "time": 0})
    return result


def by_name(classes):
    return {item["name"].upper(): item for item in classes}


@st.composite
def instance(draw, classes, name=None, text=CP1252):
    names = [item["name"] for item in classes if item["name"] != "__NAMESPACE"]
    name = name or draw(st.sampled_from(names + names[-1:] * 2))
    items = wmi.chain(by_name(classes), name)
    values = {lower: draw(value_of(number, text))
              for lower, (_, number, _) in wmi.value_map(items).items()}
    return {"class": name, "values": values, "fill": draw(st.sampled_from([b"\x00", b"\xff"])),
            "state": draw(st.binary(min_size=1, max_size=3)), "unknown": draw(dt.u(8)),
            "qualifiers": draw(st.binary(max_size=5)),
            "dynamic": draw(st.one_of(st.none(), st.lists(st.binary(max_size=6), max_size=3))),
            "offset": draw(dt.u(32)), "times": [draw(dt.FILETIME), draw(dt.FILETIME)]}


@st.composite
def repository(draw, well_known=False, deep=False):
    version = draw(st.sampled_from(["2.1", "2.2"]))
    with_namespaces = well_known or deep or draw(st.booleans())
    classes = draw(class_list(with_namespaces, 1 if deep else 4))
    instances = draw(st.lists(instance(classes, text=TEXT), max_size=4))
    namespaces = []
    if with_namespaces:
        taken = {name.upper() for name in WELL_KNOWN}
        start = draw(st.integers(0, len(WELL_KNOWN) - 1)) if well_known else 0
        number = draw(st.integers(5, 9)) if deep else draw(st.integers(1, 4))
        for index in range(20 if well_known else number):
            if well_known:
                parent = WELL_KNOWN[(start + index) % len(WELL_KNOWN)]
            elif deep and namespaces:
                parent = draw(st.sampled_from([namespaces[-1]["path"]] * 9 + ["ROOT"]))
            else:
                parent = draw(st.sampled_from(COMMON + ["ROOT\\Unknown Parent"] + [
                    item["path"] for item in namespaces] * 3))
            name = draw(IDENT)
            path = parent + "\\" + name
            if path.upper() in taken:
                continue
            taken.add(path.upper())
            item = draw(instance(classes, "__NAMESPACE"))
            item["values"]["name"] = name
            namespaces.append({"parent": parent, "path": path, "instance": item})
    registrations = draw(st.lists(st.tuples(
        *[st.text(alphabet="ab\\_\u20ac\U0001f600", max_size=5) for _ in range(4)]), max_size=2))
    records = []
    for item in classes:
        records.append({"kind": "CD", "item": item})
    for item in instances:
        records.append({"kind": draw(st.sampled_from(["I", "IL"])), "item": item})
    for item in namespaces:
        records.append({"kind": "NI", "item": item})
    for item in registrations:
        records.append({"kind": "R", "item": item})
    layout = draw(st.permutations(range(len(records))))
    keys = list(range(len(records)))
    keys = draw(st.permutations(keys))
    junk = draw(st.lists(st.sampled_from(
        [("NS_AB", "C_12"), ("NS_AB", "CR_1.2.3"), ("NS_AB", "KI_12", "I_34"),
         ("NS_AB", "CD_1.2.x.4"), ("NS_AB", "I_1.2.3.4.5"), ("NS_AB", "CI_1", "IL_.1..2"),
         ("X",), ("NS_",)]), max_size=3))
    return {
        "version": version, "classes": classes, "records": records, "layout": layout,
        "keys": keys, "junk": junk, "junk_at": [draw(st.integers(0, len(records))) for _ in junk],
        "breaks": [draw(st.integers(0, 3)) == 0 for _ in records],
        "identifiers": draw(st.lists(st.one_of(st.integers(1, 50), st.integers(1, 0xFFFFFFFF)),
                                     min_size=len(records), max_size=len(records),
                                     unique=draw(st.booleans()))),
        "chunks": draw(st.lists(st.integers(1, 5), min_size=1, max_size=4)),
        "upper": draw(st.booleans()), "duplicate": draw(st.booleans()),
        "shuffle": draw(st.randoms(use_true_random=False)).randrange(1 << 30),
        "separate": draw(st.booleans()), "case": draw(st.sampled_from(sorted(FILENAMES))),
        "first": draw(st.integers(0, 2))}


def registration_record(texts):
    data = b""
    for text in texts:
        encoded = text.encode("utf-16-le")
        data += struct.pack("<I", len(encoded) // 2) + encoded
    return data + bytes(8)


def record_data(model, record):
    if record["kind"] == "CD":
        return wmi.class_record(record["item"])
    if record["kind"] == "R":
        return registration_record(record["item"])
    item = record["item"]["instance"] if record["kind"] == "NI" else record["item"]
    return wmi.instance_record(model["version"], item, wmi.chain(
        by_name(model["classes"]), item["class"]))


def build(model):
    """Files and what is expected to be read from them."""
    version = model["version"]

    def digest(name):
        value = wmi.name_hash(version, name)
        return value if model["upper"] else value.lower()

    datas = [record_data(model, record) for record in model["records"]]
    # Groups of records, each starts on a page of its own.
    groups = []
    sizes = 0
    where = {}
    for index in model["layout"]:
        data = datas[index]
        # A group that continues on another page ends.
        if (not groups or sizes is None or model["breaks"][index] or
                sizes + 16 + len(data) > wmi.PAGE - 32):
            groups.append([])
            sizes = 32
        groups[-1].append((model["identifiers"][index], data, 0x1234 + index))
        sizes += 16 + len(data)
        if sizes > wmi.PAGE:
            sizes = None
        where[index] = len(groups) - 1
    # An identifier is unique on its page.
    identifiers = list(model["identifiers"])
    for number, group in enumerate(groups):
        taken = set()
        for position, index in enumerate(
                index for index in model["layout"] if where[index] == number):
            while identifiers[index] in taken:
                identifiers[index] = identifiers[index] % 0xFFFFFFFF + 1
            taken.add(identifiers[index])
            group[position] = (identifiers[index], *group[position][1:])
    numbers, pages = wmi.objects_pages(groups)
    shift = model["first"]
    keys = []
    records = {}
    for index in model["keys"]:
        record = model["records"][index]
        tail = (f".{numbers[where[index]] + shift}.{identifiers[index]}"
                f".{len(datas[index])}")
        if record["kind"] == "CD":
            key = ("NS_" + digest("ROOT"), "CD_" + digest(record["item"]["name"]) + tail)
        elif record["kind"] == "R":
            key = ("NS_" + digest("ROOT"), "CR_" + digest("x"), "R_" + digest("y") + tail)
        elif record["kind"] == "NI":
            parent = record["item"]["parent"]
            key = ("NS_" + digest(parent), "KI_" + digest("__NAMESPACE"),
                   "I_" + digest(record["item"]["path"]) + tail)
        else:
            key = ("NS_" + digest("ROOT"), "CI_" + digest(record["item"]["class"]),
                   record["kind"] + "_" + digest("z") + tail)
        keys.append((key, index))
        if record["kind"] == "NI" and model["duplicate"]:
            keys.append((("NS_" + digest(record["item"]["parent"]),
                          "CI_" + digest("__NAMESPACE"), "IL_" + digest("q") + tail), index))
    for key, at in zip(model["junk"], model["junk_at"]):
        keys.insert(at, (key, None))
    # Index pages: the root page has the first chunk and refers to one page for the others.
    chunks = []
    rest = list(keys)
    position = 0
    while rest:
        size = model["chunks"][min(position, len(model["chunks"]) - 1)] + 1
        chunks.append(rest[:size])
        rest = rest[size:]
        position += 1
    root = 1 if version == "2.2" else 2
    mapped = [root] + [number for number in range(3, 3 + len(chunks))]
    index_pages = {}
    ordered = []
    # A chain for the odd pages, the root otherwise.
    for position, chunk in enumerate(chunks):
        subs = [0] * (len(chunk) + 1)
        if position + 1 < len(chunks):
            subs[position % len(subs)] = mapped[position + 1]
        index_pages[mapped[position]] = wmi.index_page(
            mapped[position], [key for key, _ in chunk], subs, 0)[0]
        ordered += chunk
    if not chunks:
        index_pages[root] = wmi.index_page(root, [], [0], 0)[0]
    index_pages[0] = wmi.index_page(0, [], [0], 0, page_type=0xADDD, root=root)[0]
    number_of_index = max(index_pages) + 1

    def shuffled(count, seed):
        order = list(range(count))
        for position in range(count - 1, 0, -1):
            seed = (seed * 1103515245 + 12345) & 0x7FFFFFFF
            other = seed % (position + 1)
            order[position], order[other] = order[other], order[position]
        return order

    index_order = shuffled(number_of_index, model["shuffle"])
    filler = wmi.index_page(0, [("DELETED",)], [0, 0], 0, page_type=0xBADD)[0]
    index_file = wmi.place([index_pages.get(number, filler) for number in range(number_of_index)],
                           index_order, number_of_index, filler)
    count = len(pages) + shift
    object_order = shuffled(count, model["shuffle"] + 77)
    objects_file = wmi.place([b"\xee" * wmi.PAGE] * shift + pages, object_order, count,
                             bytes(wmi.PAGE)) if count else b""
    number = 1 if version == "2.1" else 2
    objects_map = wmi.map_section(number, 3, len(object_order) + 9, object_order or [0], [])
    index_map = wmi.map_section(number, 3, len(index_order) + 9, index_order, [])
    files = {"index.btr": index_file, "objects.data": objects_file}
    if version == "2.1" and model["separate"]:
        files["objects.map"] = objects_map
        files["index.map"] = index_map
    else:
        files["mapping1.map"] = objects_map + index_map
        files["mapping.ver"] = struct.pack("<I", 1)
    return files, ordered, datas


def write_files(root, files, case):
    for name, data in files.items():
        with open(os.path.join(root, FILENAMES[case](name)), "wb") as file_object:
            file_object.write(data)


def expected_instance(model, item):
    items = wmi.chain(by_name(model["classes"]), item["class"])
    derivation = [entry["name"] for entry in items[:-1]][::-1]
    return {"class_name": items[-1]["name"], "derivation": derivation,
            "super_class_name": derivation[0] if derivation else None,
            "dynasty": derivation[1] if len(derivation) > 1 else None,
            "properties": wmi.instance_values(item, items)}


def same(actual, expected, what):
    for name, value in expected.items():
        if name == "properties":
            equal(sorted(actual.properties), sorted(value), f"{what}: names of the properties")
            for key, entry in value.items():
                got = actual.properties[key]
                equal(repr(got), repr(entry), f"{what}: value of {key}")
        else:
            equal(getattr(actual, name), value, f"{what}: {name}")


def resolved_namespaces(model):
    known = {name.upper(): name for name in WELL_KNOWN}
    pending = [record["item"] for record in model["records"] if record["kind"] == "NI"]
    result = []
    while True:
        found = [item for item in pending if item["parent"].upper() in known]
        if not found:
            return result
        for item in found:
            known[item["path"].upper()] = item["path"]
            result.append(item)
        pending = [item for item in pending if item not in found]


def expected_qualifiers(items):
    return {name.lower(): wmi.qualifier_value(number, value)
            for name, _, _, number, value in items}


def check_class(data, item, debug):
    recorder = dt.Recorder()
    reference = wmi_repository.ClassDefinitionReference(debug=debug, output_writer=recorder)
    reference.ReadObjectRecord(data)
    equal(reference.super_class_name or None, item["super"], "super class name of the record")
    require(bytes(reference.data) == wmi.class_block(item), "class definition block")
    definition = wmi_repository.ClassDefinition(debug=debug, output_writer=recorder)
    definition.ReadClassDefinitionBlock(reference.data, record_data_offset=reference.offset)
    equal(definition.name, item["name"], "class name")
    equal(definition.super_class_name, item["super"], "super class name")
    expected = expected_qualifiers(item["qualifiers"])
    equal(repr(definition.qualifiers), repr(expected), "class qualifiers")
    equal(bool(definition.IsAbstract()), bool(expected.get("abstract")), "is abstract")
    sequences_equal(list(definition.properties), [entry["name"] for entry in item["properties"]],
                    "names of the properties")
    for entry in item["properties"]:
        actual = definition.properties[entry["name"]]
        equal(actual.name, entry["name"], "property name")
        equal(actual.index, entry["index"], "property index")
        equal(actual.value_data_type, entry["type"], "property type")
        equal(actual.value_data_offset, entry["offset"], "property value offset")
        equal(repr(actual.qualifiers), repr(expected_qualifiers(entry["qualifiers"])),
              "property qualifiers")
    if debug:
        expected = [("Unknown date and time", dt.filetime(item["time"])),
                    ("Number of property descriptors", str(len(item["properties"])))]
        for entry in item["properties"]:
            expected += [("  Index", str(entry["index"])),
                         ("  Value data offset",
                          f"{entry['offset']} (0x{entry['offset']:08x})"),
                         ("  Level", str(entry["level"]))]
        dt.pairs_equal(recorder.text, expected, labels={label for label, _ in expected} | {
            "  Index", "  Level"})


def class_pairs(item):
    result = [("    Name", item["name"])]
    if item["super"]:
        result.append(("    Super class name", item["super"]))
    for name, value in expected_qualifiers(item["qualifiers"]).items():
        result.append((f"    Qualifier: {name}", str(value)))
    for entry in item["properties"]:
        result.append(("        Index", str(entry["index"])))
        result.append(("        Value data offset",
                       f"{entry['offset']} (0x{entry['offset']:08x})"))
        for name, value in expected_qualifiers(entry["qualifiers"]).items():
            result.append((f"        Qualifier: {name}", str(value)))
    return result


def check_repository(model, ctx):
    files, keys, datas = build(model)
    instances = [model["records"][index]["item"] if model["records"][index]["kind"] != "NI" else
                 model["records"][index]["item"]["instance"] for key, index in keys
                 if index is not None and model["records"][index]["kind"] in ("I", "IL", "NI")]
    large = any(len(data) > wmi.PAGE for data in datas)
    derived = any(item["super"] for item in model["classes"])
    ctx.note(len(instances) >= 2 or derived or large, key=repr(model), sample=repr(model)[:300],
             labels=[model["version"], f"large:{large}", f"derived:{derived}",
                     f"namespaces:{any(r['kind'] == 'NI' for r in model['records'])}"])
    with ctx.directory() as root:
        write_files(root, files, model["case"])
        for debug in (False, True):
            recorder = dt.Recorder()
            test_repository = wmi_repository.CIMRepository(debug=debug, output_writer=recorder)
            test_repository.Open(root)
            text = recorder.text
            try:
                equal(test_repository.format_version, model["version"], "format version")
                paths = ["".join("\\" + segment for segment in key) for key, _ in keys]
                sequences_equal(list(test_repository.GetIndexKeys()), paths, "keys")
                found = list(test_repository.GetInstances())
                equal(len(found), len(instances), "number of instances")
                for number, (actual, item) in enumerate(zip(found, instances)):
                    same(actual, expected_instance(model, item), f"instance {number}")
                namespaces = resolved_namespaces(model)
                for _ in range(2):
                    found = sorted(test_repository.GetNamespaces(), key=lambda entry:
                                   entry.namespace)
                    sequences_equal([entry.namespace for entry in found], sorted(
                        item["path"] for item in namespaces), "namespaces")
                    for actual, item in zip(found, sorted(
                            namespaces, key=lambda entry: entry["path"])):
                        same(actual, expected_instance(model, item["instance"]),
                             f"namespace {item['path']}")
                for path, (key, index) in zip(paths, keys):
                    actual = test_repository.GetObjectRecordByKey(path)
                    if index is None:
                        equal(actual, None, f"record of {path}")
                        continue
                    require(bytes(actual.data) == datas[index], f"data of the record of {path}")
                    equal(actual.data_type, key[-1].split("_")[0], f"data type of {path}")
                    record = model["records"][index]
                    check_other_sizes(test_repository, path)
                    if record["kind"] == "CD":
                        check_class(actual.data, record["item"], debug)
                    elif record["kind"] == "R":
                        check_registration(actual.data, record["item"], debug)
                    else:
                        check_reference(model, actual.data, record, debug)
            finally:
                test_repository.Close()
            if debug:
                text = text.split("Class definitions:\n", 1)[1]
                order = [model["records"][index]["item"] for _, index in keys
                         if index is not None and model["records"][index]["kind"] == "CD"]
                if not any("\n" in str(value) for item in order
                           for pairs in [class_pairs(item)] for _, value in pairs):
                    dt.pairs_equal(text, [pair for item in order for pair in class_pairs(item)])


def check_other_sizes(test_repository, path):
    """A reference with another data size is not a reference to the record."""
    rest, _, size = path.rpartition(".")
    for other in {int(size) + 1, int(size) - 1, int(size) // 2, int(size) * 2} - {0, int(size)}:
        try:
            test_repository.GetObjectRecordByKey(f"{rest}.{other}")
        except wmi_repository.errors.ParseError:
            continue
        require(False, f"a record of {size} bytes was read as {other} bytes")


@st.composite
def small_records(draw):
    """Pages that have many small records."""
    pages = []
    for _ in range(draw(st.integers(1, 3))):
        number = draw(st.one_of(st.integers(1, 340), st.integers(250, 340)))
        start = draw(st.integers(1, 0xFFFF0000))
        step = draw(st.sampled_from([1, 3, 7]))
        size = 8176 // number - 16 - draw(st.integers(0, 3))
        sizes = [max(1, min(size, 40) - draw(st.integers(0, 2)) * (number % 3))] * number
        identifiers = [start + step * index for index in range(number)]
        if draw(st.booleans()):
            identifiers.reverse()
        pages.append([(identifier, bytes([identifier % 251]) + bytes([index % 256]) * (count - 1))
                      for index, (identifier, count) in enumerate(zip(identifiers, sizes))])
    return draw(st.sampled_from(["2.1", "2.2"])), pages, draw(
        st.lists(st.integers(0, 1000), min_size=2, max_size=8))


def check_small_records(case, ctx):
    version, groups, choices = case
    numbers, pages = wmi.objects_pages([
        [(identifier, data, 0) for identifier, data in group] for group in groups])
    count = sum(map(len, groups))
    ctx.note(count >= 2, key=repr(case), sample=f"{version} {[len(group) for group in groups]}",
             labels=[f"records:{count // 100}00"])
    root_page = 1 if version == "2.2" else 2
    empty = {root_page: wmi.index_page(root_page, [], [0], 0)[0],
             0: wmi.index_page(0, [], [0], 0, page_type=0xADDD, root=root_page)[0]}
    number = 1 if version == "2.1" else 2
    files = {
        "index.btr": b"".join(empty.get(page, bytes(wmi.PAGE)) for page in range(3)),
        "objects.data": b"".join(pages),
        "mapping1.map": wmi.map_section(number, 3, 77, list(range(len(pages))), []) +
                        wmi.map_section(number, 3, 78, [0, 1, 2], [])}
    with ctx.directory() as root:
        write_files(root, files, "lower")
        test_repository = wmi_repository.CIMRepository()
        test_repository.Open(root)
        try:
            for page, group in zip(numbers, groups):
                for index in {0, len(group) - 1, *[value % len(group) for value in choices]}:
                    identifier, data = group[index]
                    path = f"\\NS_AB\\CR_12\\R_34.{page}.{identifier}.{len(data)}"
                    actual = test_repository.GetObjectRecordByKey(path)
                    require(bytes(actual.data) == data, f"data of record {index} of {len(group)}")
                    equal(actual.data_type, "R", "data type")
        finally:
            test_repository.Close()


def renamed(model):
    """A repository whose classes have the same names and other properties."""
    classes = {}
    for item in model["classes"]:
        properties = item["properties"] if item["name"] == "__NAMESPACE" else [
            dict(entry, name=entry["name"] + "_2") for entry in item["properties"]]
        classes[id(item)] = dict(item, properties=properties)
    records = []
    for record in model["records"]:
        item = record["item"]
        if record["kind"] == "CD":
            item = classes[id(item)]
        elif record["kind"] in ("I", "IL"):
            item = dict(item, values={
                name + "_2": value for name, value in item["values"].items()})
        records.append(dict(record, item=item))
    return dict(model, records=records,
                classes=[classes[id(item)] for item in model["classes"]])


def check_opened_again(model, ctx):
    """An object that is closed and opens another repository has nothing of the first."""
    models = [model, renamed(model)]
    instances = [record["item"] for record in model["records"] if record["kind"] in ("I", "IL")]
    ctx.note(len(instances) >= 2, key=repr(model), sample=repr(model)[:300])
    test_repository = wmi_repository.CIMRepository()
    for step, current in enumerate([*models, models[0]]):
        files, keys, _ = build(current)
        items = [current["records"][index]["item"] for _, index in keys if index is not None and
                 current["records"][index]["kind"] in ("I", "IL")]
        with ctx.directory() as root:
            write_files(root, files, "lower")
            test_repository.Open(root)
            try:
                equal(len(list(test_repository.GetIndexKeys())), len(keys), "number of keys")
                found = [entry for entry in test_repository.GetInstances()
                         if entry.class_name != "__NAMESPACE"]
                equal(len(found), len(items), "number of instances")
                for number, (actual, item) in enumerate(zip(found, items)):
                    same(actual, expected_instance(current, item),
                         f"repository {step} instance {number}")
                sequences_equal(sorted(entry.namespace for entry in
                                       test_repository.GetNamespaces()),
                                sorted(item["path"] for item in resolved_namespaces(current)),
                                "namespaces")
            finally:
                test_repository.Close()


def check_registration(data, texts, debug):
    recorder = dt.Recorder()
    registration = wmi_repository.Registration(debug=debug, output_writer=recorder)
    registration.ReadObjectRecord(data)
    if debug:
        expected = []
        for label, text in zip(("Name space", "Class name", "Instance name", "Index key"), texts):
            size = len(text.encode("utf-16-le")) // 2
            expected.append((f"{label} string size", str(size)))
            expected.append((f"{label} string", text))
        dt.pairs_equal(recorder.text, expected, labels={label for label, _ in expected})


def check_reference(model, data, record, debug):
    item = record["item"]["instance"] if record["kind"] == "NI" else record["item"]
    recorder = dt.Recorder()
    reference = wmi_repository.InstanceReference(
        model["version"], debug=debug, output_writer=recorder)
    reference.ReadObjectRecord(data)
    items = wmi.chain(by_name(model["classes"]), item["class"])
    equal(reference.class_name_hash.lower(), wmi.name_hash(
        model["version"], item["class"]).lower(), "class name hash")
    require(bytes(reference.data) == wmi.instance_block(item, items), "instance block data")
    if debug:
        expected = [("Unknown date and time1", dt.filetime(item["times"][0])),
                    ("Unknown date and time2", dt.filetime(item["times"][1]))]
        dt.pairs_equal(recorder.text, expected, labels={label for label, _ in expected})


@st.composite
def broken(draw):
    model = draw(repository())
    how = draw(st.sampled_from(
        ["index", "objects", "maps", "identifier", "size", "page", "class", "super", "cycle",
         "record", "truncated"]))
    return model, how, draw(st.integers(0, 1 << 16))


def check_broken(case, ctx):
    model, how, value = case
    model = dict(model, records=[dict(record) for record in model["records"]])
    classes = [record for record in model["records"] if record["kind"] == "CD"]
    chosen = classes[value % len(classes)]
    instances = [record for record in model["records"] if record["kind"] in ("I", "IL", "NI")]
    target = model["records"].index(chosen)
    drop = None
    if how in ("super", "cycle", "class") and not instances:
        how = "index"
    if how in ("class", "super", "cycle"):
        record = instances[value % len(instances)]
        item = record["item"]["instance"] if record["kind"] == "NI" else record["item"]
        chain = wmi.chain(by_name(model["classes"]), item["class"])
        if how == "class":
            victim = chain[-1]
        else:
            victim = chain[0]
        if how == "cycle":
            data = dict(victim, super=chain[-1]["name"])
        elif how == "super" and len(chain) == 1:
            data = dict(victim, super="NoSuchClass_")
        else:
            data = None
            drop = [number for number, entry in enumerate(model["records"])
                    if entry["kind"] == "CD" and entry["item"] is victim]
        if data:
            original = victim
            for number, entry in enumerate(model["records"]):
                if entry["kind"] == "CD" and entry["item"] is original:
                    model["records"][number] = {"kind": "CD", "item": data}
    if drop:
        model["keys"] = [index for index in model["keys"] if index not in drop]
    files, keys, datas = build_with(model, how, target, value)
    ctx.note(True, key=f"{how}{value}{model!r}", sample=f"{how} {model!r:.200}",
             labels=[f"broken:{how}"])
    with ctx.directory() as root:
        write_files(root, files, "lower")
        for debug in (False, True):
            test_repository = wmi_repository.CIMRepository(
                debug=debug, output_writer=dt.Recorder())
            try:
                try:
                    test_repository.Open(root)
                    list(test_repository.GetIndexKeys())
                    list(test_repository.GetInstances())
                finally:
                    test_repository.Close()
            except wmi_repository.errors.ParseError:
                continue
            require(False, f"repository with invalid {how} was accepted (debug {debug})")


def build_with(model, how, target, value):
    """Files with one defect."""
    if how in ("identifier", "size", "page"):
        copy = dict(model)
        files, keys, datas = build(copy)
        # Change the reference in the key of the target record.
        original = model["identifiers"]
        used = [int(key[-1].split(".")[2]) for key, index in keys if index is not None]

        def altered(key):
            name, page, identifier, size = key.rsplit(".", 3)
            if how == "identifier":
                number = int(identifier)
                other = 1 + (number + value) % 0xFFFFFFFE
                while other in original or other in used:
                    other = 1 + other % 0xFFFFFFFE
                identifier = str(other)
            elif how == "size":
                size = str(max(1, int(size) + (value % 9000 + 1) * (1 if value % 2 else -1)))
                if int(size) == len(datas[target]):
                    size = str(int(size) + 1)
            else:
                page = str(int(page) + 100 + value)
            return f"{name}.{page}.{identifier}.{size}"

        changed = [(key[:-1] + (altered(key[-1]),) if index == target else key, index)
                   for key, index in keys]
        return rebuild_index(model, files, changed), changed, datas
    files, keys, datas = build(model)
    if how == "index":
        del files["index.btr"]
    elif how == "objects":
        del files["objects.data"]
    elif how == "maps":
        files = {name: data for name, data in files.items() if not name.endswith(".map")}
    elif how == "truncated":
        files["objects.data"] = files["objects.data"][:value % 16]
    elif how == "record":
        # A class definition block size that does not fit in the record.
        data = datas[target]
        item = model["records"][target]["item"]
        at = 4 + 2 * len(item["super"] or "") + 8
        changed = data[:at] + struct.pack("<I", struct.unpack_from("<I", data, at)[0] + 1 +
                                          value) + data[at + 4:]
        position = files["objects.data"].find(data[:4000])
        require(position >= 0, "record not found by the check")
        files["objects.data"] = (files["objects.data"][:position] + changed[:4000] +
                                 files["objects.data"][position + len(changed[:4000]):])
    return files, keys, datas


def rebuild_index(model, files, keys):
    """Replaces the index by one without sub pages if it fits, which has the keys."""
    version = model["version"]
    size = 8
    chunks = [keys[start:start + size] for start in range(0, len(keys), size)]
    root = 1 if version == "2.2" else 2
    mapped = [root] + list(range(3, 3 + len(chunks)))
    pages = {0: wmi.index_page(0, [], [0], 0, page_type=0xADDD, root=root)[0]}
    for position, chunk in enumerate(chunks):
        subs = [0] * (len(chunk) + 1)
        if position + 1 < len(chunks):
            subs[-1] = mapped[position + 1]
        pages[mapped[position]] = wmi.index_page(
            mapped[position], [key for key, _ in chunk], subs, 0)[0]
    count = max(pages) + 1
    number = 1 if version == "2.1" else 2
    index_map = wmi.map_section(number, 3, count + 9, list(range(count)), [])
    result = dict(files)
    result["index.btr"] = b"".join(pages.get(page, bytes(wmi.PAGE)) for page in range(count))
    if "index.map" in files:
        result["index.map"] = index_map
    else:
        data = files["mapping1.map"]
        end = data.index(struct.pack("<II", 0xDCBA, 0xABCD)) + 4
        result["mapping1.map"] = data[:end] + index_map
    return result


GENERATORS = {}
SUBTESTS = [
    SubTest("repository", repository(), check_repository, 250, 12000),
    SubTest("well-known namespaces", repository(True), check_repository, 30, 500),
    SubTest("nested namespaces", repository(False, True), check_repository, 40, 1500),
    SubTest("opened again", repository(), check_opened_again, 40, 2000),
    SubTest("many records", small_records(), check_small_records, 60, 2000),
    SubTest("broken", broken(), check_broken, 200, 8000),
]
