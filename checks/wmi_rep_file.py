"""P40: class definitions, instances and namespaces of WMI cim.rep repository files."""

import os
import struct

import dt
import wmi
import wmi_repository_objects as objects
from vf import SubTest, equal, require, sequences_equal, st

from dtformats import wmi_repository

PROPERTY = "P40"
TITLE = "WMI cim.rep files yield the instances and namespaces in their node hierarchies"
STATEMENT = (
    "For every cim.rep repository file (format version 2.0), the cells are located through the "
    "cell sizes and node bin headers; ReadClassDefinitions yields the instances in the child "
    "lists of the class definition hierarchy, ReadInstances the instances of the root namespace "
    "hierarchy and ReadNamespaces its namespaces with their full path, all in hierarchy order "
    "(a node before its children, children in list or tree order), with class name and property "
    "values; nodes whose offset is not set are skipped. CIMRepository yields the same instances "
    "and namespaces for the path of the file. Hierarchies that contain themselves, offsets "
    "outside of the file, invalid cell sizes and truncated nodes are rejected with ParseError.")
QUANTIFIER = "all node hierarchies, cell orders and sizes, node bins, classes and property values"
WHY = "There is no cim.rep test file: no node is read by the tests."
FILES = ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml",
         "dtformats/wmi_repository.debug.yaml"]
MECHANISM = [
    ("cells", "RepositoryFile.ReadFileObject, _ReadNodeCell, _ReadNodeBinHeader"),
    ("lists and trees", "RepositoryFile._ReadChildObjectsList, _ReadChildObjectsTree"),
    ("hierarchies", "_ReadClassDefinitionHierarchy, _ReadInstanceHierarchy, "
                    "_ReadNamespaceInstanceHierarchy"),
]
OBSERVE = ["ReadClassDefinitions, ReadInstances, ReadNamespaces", "CIMRepository.GetInstances, "
           "GetNamespaces", "debug output", "errors raised"]
TECHNIQUE = "property-based round-trip testing against an independent writer"
RULE = "two or more instances in one of the hierarchies"
ASSUMPTIONS = ["instances are of classes without a super class, which the reader requires"]

FOOTER = st.sampled_from([bytes(12), b"\xff" * 12, bytes(range(12))])
UNSET = st.sampled_from([None, None, 1, 40])


@st.composite
def model_strategy(draw):
    namespaces = draw(st.booleans())
    classes = [dict(item, super=None) for item in draw(objects.class_list(namespaces))]
    # Properties without type qualifier need the super class.
    for item in classes:
        item["properties"] = [entry for entry in item["properties"] if any(
            qualifier[0].lower() == "type" for qualifier in entry["qualifiers"])]
    plain = [item for item in classes if item["name"] != "__NAMESPACE"]

    def an_instance(name=None):
        return {"data": draw(objects.instance(classes, name)),
                "kind": draw(st.sampled_from([2, 2, 2, 2, 0, 1, 3])) if not name else 2,
                "unset": draw(st.integers(0, 11)) if not name else 9}

    def class_node(depth):
        number = draw(st.integers(0, 3 if depth == 0 else 2)) if depth < 3 else 0
        return {"class": draw(st.integers(0, len(plain) - 1)),
                "instances": [an_instance() for _ in range(draw(st.integers(0, 2)))],
                "defined": draw(st.integers(0, 5)) > 0,
                "children": [class_node(depth + 1) for _ in range(number)],
                "type": draw(st.sampled_from([9, 10])), "gaps": draw(st.booleans()),
                "direct": draw(st.booleans()), "names": draw(st.booleans()),
                "hidden": draw(st.integers(0, 6)) == 0}

    wide = []

    def instance_node(depth):
        number = draw(st.integers(0, 4 if depth == 0 else 2)) if depth < 3 else 0
        if depth == 0 and draw(st.integers(0, 7)) == 0:
            number = 10
        elif depth and wide:
            number = min(number, draw(st.integers(0, 1)))
        wide.extend([depth] if number == 10 else [])
        item = None
        if namespaces:
            item = an_instance("__NAMESPACE")
            item["data"]["values"]["name"] = draw(objects.IDENT)
            if depth and draw(st.integers(0, 5)) == 0:
                item = None
        elif draw(st.integers(0, 4)):
            item = an_instance()
        return {"instance": item, "children": [instance_node(depth + 1) for _ in range(number)],
                "gaps": draw(st.booleans()), "direct": draw(st.booleans()),
                "name": draw(st.one_of(st.none(), objects.IDENT)),
                "unknown5": draw(st.booleans()), "list": draw(st.integers(0, 2)),
                "none": draw(st.sampled_from([0, 40, 0xFFFFFFFF]))}

    return {"namespaces": namespaces, "classes": classes, "tree": class_node(0),
            "root": instance_node(0), "seed": draw(st.integers(0, 1 << 30)),
            "footer": draw(FOOTER), "bins": draw(st.lists(st.integers(1, 40), max_size=4)),
            "flags": draw(st.lists(st.sampled_from([0, 0x80000000]), min_size=1, max_size=3)),
            "trailing": draw(st.lists(st.binary(max_size=8), min_size=1, max_size=3)),
            "header": [draw(dt.u(32)) for _ in range(6)],
            "absent": draw(st.sampled_from([False, False, False, True])),
            "extra": draw(st.integers(0, 3)),
            "large": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0x10000, 0x12345]))}


class Writer:
    """Nodes of a model and the expected instances."""

    def __init__(self, model):
        self.model = model
        self.nodes = []
        self.plain = [item for item in model["classes"] if item["name"] != "__NAMESPACE"]
        self.classes = {item["name"]: item for item in model["classes"]}
        self.class_roots = {}
        self.from_classes = []
        self.from_instances = []
        self.from_namespaces = []
        self.lists = []
        self.trees = []

    def node(self, *fields, pad=False):
        result = wmi.Node(*fields, footer=self.model["footer"], pad=pad)
        self.nodes.append(result)
        return result

    def name(self, text):
        return self.node(text.encode("utf-16-le") + b"\x00\x00", pad=True)

    def class_root(self, name):
        """Root node that an instance refers to."""
        if name not in self.class_roots:
            block = wmi.class_block(self.classes[name])
            leaf = self.node(len(block) + 4, block, 8, b"abcd", pad=True)
            branch = self.node(None, None, 0, leaf, 0)
            self.class_roots[name] = self.node(None, branch, None, 0, None, None, 0, None)
        return self.class_roots[name]

    def instance(self, item):
        """Branch node and if the instance is expected."""
        data = item["data"]
        block = wmi.instance_block(data, [self.classes[data["class"]]])
        leaf = self.node(len(block) + 4, block)
        root = self.class_root(data["class"])
        if item["unset"] == 0:
            root = 40
        elif item["unset"] == 1:
            leaf = 0
        branch = self.node(None, root, item["kind"], leaf, 0)
        return branch, item["kind"] == 2 and item["unset"] > 1

    def tree(self, values, gaps, direct):
        """Child objects tree of value nodes."""
        if not values:
            return self.node(0, 0, None) if gaps else 0
        if len(values) == 1 and direct:
            root = self.node(1, 1, values[0])
        else:
            slots = [0] * 10
            places = range(len(values))
            if gaps:
                places = sorted(shuffled(range(10), self.model["seed"] + len(self.nodes))[
                    :len(values)])
            for place, value in zip(places, values):
                slots[place] = value
            leaf = self.node(*slots)
            branch = self.node(len(values), 10, 0, leaf)
            root = self.node(2, len(values), branch)
        self.trees.append(root)
        return root

    def list(self, values, names, gaps):
        if not values:
            return self.node(0, 0, 0, 0, 0) if gaps else 40
        elements = []
        for number, value in enumerate(values):
            name = self.name(f"element {number}") if names else 0
            elements.append(self.node(0, name, value, 0, 0, 0, 0))
        for element, following in zip(elements, elements[1:]):
            element.fields[6] = following
            following.fields[5] = element
        self.lists.append(elements)
        return self.node(0, elements[0], elements[-1], 0, len(elements))

    def class_hierarchy(self, item):
        """Class definition root node; expected instances are in hierarchy order."""
        entry = self.plain[item["class"]]
        branch = 0
        if item["defined"]:
            block = wmi.class_block(entry)
            leaf = self.node(len(block) + 4, block, 4, pad=True)
            branch = self.node(None, None, 0, leaf, 0)
        values = []
        for instance in item["instances"]:
            value, expected = self.instance(instance)
            values.append(value)
            if expected:
                self.from_classes.append(instance["data"])
        listing = self.list(values, item["names"], item["gaps"])
        sub_type = item["type"]
        known = len(self.from_classes)
        children = [self.class_hierarchy(child) for child in item["children"]]
        if item["hidden"]:
            sub_type = 3
            del self.from_classes[known:]
        sub = self.tree(children, item["gaps"], item["direct"])
        names = self.tree([self.name("class name")], False, True) if item["names"] else 0
        return self.node(None, branch, 0, sub_type, listing, sub, 0, names)

    def instance_hierarchy(self, item, parents):
        """Instance root node."""
        branch = 0
        segments = None
        if item["instance"]:
            branch, expected = self.instance(item["instance"])
            if expected:
                self.from_instances.append(item["instance"]["data"])
            if parents is not None and self.model["namespaces"]:
                segments = parents + [item["instance"]["data"]["values"]["name"]]
                self.from_namespaces.append((item["instance"]["data"], "\\".join(segments)))
        values = []
        for child in item["children"]:
            root = self.instance_hierarchy(child, segments)
            name = self.name(child["name"]) if child["name"] else 0
            values.append(self.node(name, root))
        tree = self.tree(values, item["gaps"], item["direct"]) or item["none"]
        name = self.name(item["name"]) if item["name"] else 0
        unknown = self.node(8, b"\x01\x02\x03\x04") if item["unknown5"] else 0
        listing = 0
        if item["list"]:
            listing = self.list([self.class_root(self.plain[0]["name"])
                                 for _ in range(item["list"])], True, False)
        return self.node(tree, name, branch, 0, listing, 0, unknown)


def shuffled(nodes, seed):
    order = list(nodes)
    for position in range(len(order) - 1, 0, -1):
        seed = (seed * 1103515245 + 12345) & 0x7FFFFFFF
        other = (seed >> 8) % (position + 1)
        order[position], order[other] = order[other], order[position]
    return order


def build(model, change=None):
    writer = Writer(model)
    system = writer.class_hierarchy(model["tree"])
    root = writer.instance_hierarchy(model["root"], [])
    for _ in range(model["extra"]):
        writer.node(b"unused cell." + b"x" * model["large"])
    if change:
        change(writer, system, root)
    nodes = shuffled(writer.nodes, model["seed"])
    trailing = [model["trailing"][number % len(model["trailing"])]
                for number in range(len(nodes))]
    header = [system, root] + model["header"]
    if model["absent"]:
        header[0] = len(nodes) + 5
        writer.from_classes = []
    data, offsets, cells = wmi.rep_file(nodes, set(model["bins"]), model["flags"], trailing,
                                        header)
    return writer, data, offsets, cells, nodes, (system, root)


def expected_of(writer, item):
    entry = writer.classes[item["class"]]
    return {"class_name": entry["name"], "derivation": [], "super_class_name": None,
            "dynasty": None, "properties": wmi.instance_values(item, [entry])}


def check_results(writer, actual, items, what):
    equal(len(actual), len(items), f"number of {what}")
    for number, (result, item) in enumerate(zip(actual, items)):
        objects.same(result, expected_of(writer, item), f"{what} {number}")


def check_file(model, ctx):
    writer, data, _, cells, nodes, roots = build(model)
    namespaces = model["namespaces"]
    ctx.note(max(len(writer.from_classes), len(writer.from_instances)) >= 2, key=repr(model),
             sample=repr(model)[:300], labels=[
                 f"namespaces:{namespaces}", f"bins:{len(set(model['bins'])) > 0}",
                 f"absent:{model['absent']}"])
    with ctx.directory() as root:
        path = os.path.join(root, "CIM.REP")
        with open(path, "wb") as file_object:
            file_object.write(data)
        for debug in (False, True):
            recorder = dt.Recorder()
            test_file = wmi_repository.RepositoryFile(debug=debug, output_writer=recorder)
            test_file.Open(path)
            text = recorder.text
            try:
                for _ in range(2):
                    check_results(writer, list(test_file.ReadClassDefinitions()),
                                  writer.from_classes, "class instances")
                    check_results(writer, list(test_file.ReadInstances()),
                                  writer.from_instances, "instances")
                if namespaces:
                    found = list(test_file.ReadNamespaces())
                    check_results(writer, found, [item for item, _ in writer.from_namespaces],
                                  "namespaces")
                    sequences_equal([entry.namespace for entry in found],
                                    [path for _, path in writer.from_namespaces], "paths")
            finally:
                test_file.Close()
            if debug:
                offset = [f"{at} (0x{at:08x})" for at, _ in cells]
                expected = []
                for number, value in enumerate(offset):
                    expected.append(("Node cell offset", value))
                    expected.append(("Node cell number", str(number)))
                dt.pairs_equal(text, expected, labels={"Node cell offset", "Node cell number"})
                expected = [("System class cell number", str(
                    len(nodes) + 5 if model["absent"] else nodes.index(roots[0]))),
                            ("Root namespace cell number", str(nodes.index(roots[1])))]
                dt.pairs_equal(text, expected, labels={label for label, _ in expected})
            repository = wmi_repository.CIMRepository(debug=debug, output_writer=dt.Recorder())
            repository.Open(path)
            try:
                equal(repository.format_version, "2.0", "format version")
                check_results(writer, list(repository.GetInstances()), writer.from_instances,
                              "repository instances")
                if namespaces:
                    sequences_equal([entry.namespace for entry in repository.GetNamespaces()],
                                    [path for _, path in writer.from_namespaces], "paths")
                sequences_equal(list(repository.GetIndexKeys()), [], "index keys")
            finally:
                repository.Close()


HOWS = ["class cycle", "instance cycle", "list cycle", "offset", "depth", "cell size",
        "truncated", "header", "block", "name"]


@st.composite
def broken(draw):
    model = draw(model_strategy())
    return dict(model, absent=False), draw(st.sampled_from(HOWS)), draw(st.integers(0, 1 << 16))


def check_broken(case, ctx):
    model, how, value = case

    def change(writer, system, root):
        if how == "class cycle":
            system.fields[3] = 9
            last = system
            for _ in range(value % 4):
                node = writer.node(None, 0, 0, 9, 0, 0, 0, 0)
                last.fields[5] = writer.node(1, 1, node)
                last.fields[3] = 9
                last = node
            last.fields[5] = writer.node(1, 1, system)
        elif how == "instance cycle":
            branch = root.fields[2] if model["namespaces"] else 0
            last = root
            for _ in range(value % 4):
                node = writer.node(0, 0, branch, 0, 0, 0, 0)
                last.fields[0] = writer.node(1, 1, writer.node(0, node))
                last = node
            last.fields[0] = writer.node(1, 1, writer.node(0, root))
        elif how == "list cycle":
            elements = [writer.node(0, 0, 0, 0, 0, 0, 0) for _ in range(value % 3 + 1)]
            for element, following in zip(elements, elements[1:]):
                element.fields[6] = following
            elements[-1].fields[6] = elements[value % len(elements)]
            system.fields[4] = writer.node(0, elements[0], 0, 0, 1)
        elif how == "offset":
            root.fields[value % 2 * 2] = 0x40000000 + value
        elif how == "depth":
            root.fields[0] = writer.node(3 + value, 1, writer.node(0, 0))
        elif how == "name":
            if model["namespaces"]:
                root.fields[2] = writer.node(None, 40, 2, 40, 0)

    writer, data, offsets, cells, nodes, roots = build(model, change)
    if how == "name" and not model["namespaces"]:
        how = "header"
    data = bytearray(data)
    if how == "cell size":
        first = min(nodes.index(roots[0]), nodes.index(roots[1]))
        at = cells[value % (first + 1)][0]
        data[at:at + 4] = struct.pack("<I", 1 + value % 3)
    elif how == "truncated":
        at, _ = cells[nodes.index(roots[value % 2])]
        data = data[:at + 1 + value % 29]
    elif how == "header":
        data = data[:value % 40]
    elif how == "block":
        # The root node is shorter than its fields.
        at, _ = cells[nodes.index(roots[1])]
        data[at:at + 4] = struct.pack("<I", 4 + value % 28)
    ctx.note(True, key=f"{how}{value}{model!r}", sample=f"{how} {model!r:.200}",
             labels=[f"broken:{how}"])
    with ctx.directory() as root:
        path = os.path.join(root, "cim.rep")
        with open(path, "wb") as file_object:
            file_object.write(bytes(data))
        for debug in (False, True):
            recorder = dt.Recorder()
            test_file = wmi_repository.RepositoryFile(debug=debug, output_writer=recorder)
            methods = [test_file.ReadClassDefinitions, test_file.ReadInstances,
                       test_file.ReadNamespaces]
            if how != "name":
                # The namespaces refer to the cycle as well.
                methods = methods[1 + value // 4 % 2:][:1] if (
                    how == "instance cycle" and model["namespaces"]) else methods[:2]
            try:
                test_file.Open(path)
                try:
                    for method in methods:
                        for count, _ in enumerate(method()):
                            require(count < 10000, "number of instances is not bounded")
                finally:
                    test_file.Close()
                    for node, kind in zip(roots, ("class definition", "instance")):
                        at = offsets.get(id(node), 0)
                        require(recorder.text.count(
                            f"Reading {kind} root node at offset: {at} (") <= 4,
                            f"number of times the {kind} root node is read is not bounded")
            except wmi_repository.errors.ParseError:
                continue
            require(False, f"cim.rep with invalid {how} was accepted (debug {debug})")


GENERATORS = {"wmi_rep": model_strategy().map(lambda model: build(model)[1])}
SUBTESTS = [
    SubTest("file", model_strategy(), check_file, 150, 9000),
    SubTest("broken", broken(), check_broken, 150, 6000),
]
