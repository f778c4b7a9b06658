"""P45: decode_nskeyedarchiver_plist.py."""

import base64
import json
import plistlib
import uuid

import dt
import scripts
from vf import SubTest, Violation, equal, st

PROPERTY = "P45"
TITLE = "NSKeyedArchiver decoder restores the archived object graph"
STATEMENT = (
    "For every object graph of null, booleans, integers, floating-points, strings, "
    "data, arrays, dictionaries with string keys, sets, hash tables, URLs, UUIDs and the supported "
    "composite classes, archived with NSKeyedArchiver as a binary plist (UID values) "
    "or an XML plist (CF$UID dictionaries), with objects shared between references or "
    "not, and stored in any order, scripts/decode_nskeyedarchiver_plist.py prints the "
    "JSON of that object graph per top-level name: null as null, data as base64 with "
    "the URL alphabet, a set as an array of its elements, an URL as its relative part, "
    "after its base and a slash if it has one, a UUID as its string and a composite as "
    "an object of its attributes. A plist of another archiver or version, an unknown "
    "class, an object without a member that its class requires and a dictionary with a "
    "different number of keys and values are errors.")
QUANTIFIER = "every object graph, sharing, object order and plist format"
WHY = "The scripts have no tests."
FILES = ["scripts/decode_nskeyedarchiver_plist.py"]
MECHANISM = [
    ("object decoding", "NSKeyedArchiverDecoder._DecodeObject and its callbacks"),
    ("top-level names", "NSKeyedArchiverDecoder.DecodePlistFile"),
]
OBSERVE = ["standard output and exit status of the script"]
TECHNIQUE = "property-based round-trip testing against an independent archiver"
RULE = "an object graph of at least two nested collections"
ASSUMPTIONS = [
    "composite attributes are references, or values and arrays other than zero, false and empty: "
    "the decoder does not show attributes without a value",
    "elements of a set are composites, strings, numbers or data",
    "no string equals $null, which stands for null",
]
GENERATORS = {}

MUTABLE = st.booleans()
TEXT = st.text(
    st.characters(codec="utf-8", exclude_characters="\r",
                  exclude_categories=["Cc", "Cs", "Cn", "Co"]), max_size=12).filter(
    lambda s: s != "$null")
SCALAR = st.one_of(
    st.none().map(lambda v: ("null", v)), st.booleans().map(lambda v: ("value", v)),
    st.integers(-2**63, 2**63 - 1).map(lambda v: ("value", v)),
    st.floats(allow_nan=False, allow_infinity=False).map(lambda v: ("value", v)),
    TEXT.map(lambda v: ("value", v)), st.binary(max_size=40).map(lambda v: ("value", v)))
LEAF = st.one_of(
    SCALAR, SCALAR,
    st.binary(min_size=16, max_size=16).map(lambda v: ("uuid", v)),
    st.tuples(st.one_of(st.none(), TEXT), TEXT).map(lambda v: ("url", v)))
COMPOSITES = ("BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem",
              "Bookmark", "BTMUserSettings", "ItemRecord", "Storage")
KEYS = st.text("abcdefghijklmnopqrstuvwxyzABC_", min_size=1, max_size=10).filter(
    lambda k: k != "container")


def extend(children):
    composite = st.tuples(
        st.sampled_from(COMPOSITES),
        st.dictionaries(KEYS, st.tuples(children, st.booleans()), max_size=4)).map(
        lambda v: ("composite", v))
    return st.one_of(
        st.tuples(MUTABLE, st.lists(children, max_size=4)).map(
            lambda v: ("array", v)),
        st.tuples(MUTABLE, st.dictionaries(TEXT, children, max_size=4)).map(
            lambda v: ("dictionary", v)),
        st.tuples(MUTABLE, st.lists(
            st.one_of(composite, TEXT.map(lambda v: ("value", v)),
                      st.integers(0, 99).map(lambda v: ("value", v)),
                      st.binary(max_size=5).map(lambda v: ("value", v))),
            max_size=4)).map(lambda v: ("set", v)),
        composite,
        # A hash table is shown as the attributes of the object it refers to.
        st.dictionaries(KEYS, children, max_size=3).map(lambda v: ("hash", v)))


GRAPH = st.recursive(LEAF, extend, max_leaves=16)


class Archiver:
    """Archives an object graph."""

    def __init__(self, xml, share, shuffle):
        self.xml = xml
        self.share = share
        self.shuffle = shuffle
        self.objects = ["$null"]
        self.shared = {}
        self.classes = {}

    def uid(self, number):
        return {"CF$UID": number} if self.xml else plistlib.UID(number)

    def add(self, value):
        if self.share:
            key = repr((type(value), value))
            if key in self.shared:
                return self.uid(self.shared[key])
            self.shared[key] = len(self.objects)
        self.objects.append(value)
        return self.uid(len(self.objects) - 1)

    def cls(self, name, *parents):
        if name not in self.classes:
            self.objects.append(
                {"$classes": [name, *parents, "NSObject"], "$classname": name})
            self.classes[name] = len(self.objects) - 1
        return self.uid(self.classes[name])

    def archive(self, node):
        """Returns the reference to the object."""
        kind, value = node
        if kind == "null":
            return self.uid(0)
        if kind == "value":
            return self.add(value)
        if kind == "uuid":
            return self.add({"$class": self.cls("NSUUID"), "NS.uuidbytes": value})
        if kind == "url":
            base, relative = value
            return self.add({
                "$class": self.cls("NSURL"),
                "NS.base": self.uid(0) if base is None else self.add(base),
                "NS.relative": self.add(relative)})
        # The object is stored before the objects it refers to, as Foundation does,
        # or after.
        index = None
        if self.shuffle:
            self.objects.append(None)
            index = len(self.objects) - 1
        if kind == "hash":
            contents = {key: self.archive(child) for key, child in value.items()}
            contents["container"] = self.uid(0)
            contents["$class"] = self.cls("Container")
            result = {"$class": self.cls("NSHashTable"), "$0": len(value), "$2": 1,
                      "$1": self.add(contents)}
        elif kind == "array":
            mutable, elements = value
            result = {
                "$class": self.cls("NSMutableArray" if mutable else "NSArray"),
                "NS.objects": [self.archive(e) for e in elements]}
        elif kind == "set":
            mutable, elements = value
            result = {
                "$class": self.cls("NSMutableSet" if mutable else "NSSet"),
                "NS.objects": [self.archive(e) for e in elements]}
        elif kind == "dictionary":
            mutable, items = value
            result = {
                "$class": self.cls(
                    "NSMutableDictionary" if mutable else "NSDictionary"),
                "NS.keys": [self.add(k) for k in items],
                "NS.objects": [self.archive(e) for e in items.values()]}
        else:
            name, attributes = value
            result = {"$class": self.cls(name)}
            for key, (child, inline) in attributes.items():
                if inline and child[0] == "value" and child[1]:
                    result[key] = child[1]
                elif inline and child[0] == "array" and child[1][1]:
                    # An array of the archive itself instead of an object.
                    result[key] = [
                        e[1] if e[0] == "value" and child[1][0] else self.archive(e)
                        for e in child[1][1]]
                else:
                    result[key] = self.archive(child)
        if index is None:
            return self.add(result)
        self.objects[index] = result
        return self.uid(index)


def model(node):
    kind, value = node
    if kind == "null":
        return None
    if kind == "value":
        if isinstance(value, bytes):
            return base64.urlsafe_b64encode(value).decode("ascii")
        return value
    if kind == "uuid":
        return str(uuid.UUID(bytes=value))
    if kind == "url":
        base, relative = value
        return f"{base:s}/{relative:s}" if base else relative
    if kind in ("array", "set"):
        return [model(e) for e in value[1]]
    if kind == "dictionary":
        return {k: model(e) for k, e in value[1].items()}
    if kind == "hash":
        return {k: model(e) for k, e in value.items()}
    return {k: model(e) for k, (e, _) in value[1].items()}


def depth(node):
    kind, value = node
    if kind in ("array", "set"):
        return 1 + max([depth(e) for e in value[1]], default=0)
    if kind == "hash":
        return 1 + max([depth(e) for e in value.values()], default=0)
    if kind == "dictionary":
        return 1 + max([depth(e) for e in value[1].values()], default=0)
    if kind == "composite":
        return 1 + max([depth(e) for e, _ in value[1].values()], default=0)
    return 0


def build(top, plain, xml, share, shuffle, archiver="NSKeyedArchiver", version=100000):
    a = Archiver(xml, share, shuffle)
    names = {name: a.archive(node) for name, node in top.items()}
    names.update(plain)
    return {"$archiver": archiver, "$version": version, "$objects": a.objects,
            "$top": names}


def dump(plist, xml):
    return plistlib.dumps(
        plist, fmt=plistlib.FMT_XML if xml else plistlib.FMT_BINARY, sort_keys=False)


def typed(value):
    """Distinguishes values that compare equal, such as 1, 1.0 and True."""
    if isinstance(value, dict):
        return {k: typed(v) for k, v in value.items()}
    if isinstance(value, list):
        return [typed(v) for v in value]
    return (type(value).__name__, value)


TOP = st.dictionaries(st.sampled_from(["root", "store", "version", "x"]), GRAPH,
                      min_size=1, max_size=3)
FLAGS = st.tuples(st.booleans(), st.booleans(), st.booleans())
PLAIN = st.dictionaries(
    st.sampled_from(["plain", "number"]), st.integers(0, 9) | TEXT, max_size=1)


def check_decode(value, ctx):
    top, plain, flags = value
    data = dump(build(top, plain, *flags), flags[0])
    ctx.note(max(depth(n) for n in top.values()) >= 2, data,
             {k: model(n) for k, n in top.items()},
             labels=["xml" if flags[0] else "binary"])
    path = ctx.write(data, "archive.plist")
    result = scripts.run("decode_nskeyedarchiver_plist", path)
    equal(result.status, 0, "exit status")
    expected = {k: model(n) for k, n in top.items()}
    expected.update(plain)
    equal(typed(json.loads(result.text)), typed(expected), "decoded plist")
    dt.files_unchanged(path, data)


# The members that an object without another has.
MISSING = {
    "no uuidbytes": ["NSUUID"], "no base": ["NSURL", "NS.relative"],
    "no relative": ["NSURL", "NS.base"], "no elements": ["NSArray"],
    "no set elements": ["NSSet"], "no keys": ["NSDictionary", "NS.objects"],
    "no values": ["NSDictionary", "NS.keys"], "no table": ["NSHashTable", "$0"]}


def check_rejected(value, ctx):
    top, flags, kind = value
    plist = build(
        top, {}, *flags,
        archiver="NSArchiver" if kind == "archiver" else "NSKeyedArchiver",
        version=100001 if kind == "version" else 100000)
    uid = {"CF$UID": len(plist["$objects"])} if flags[0] else plistlib.UID(
        len(plist["$objects"]))
    cls = {"CF$UID": len(plist["$objects"]) + 1} if flags[0] else plistlib.UID(
        len(plist["$objects"]) + 1)
    if kind == "class":
        plist["$objects"].append({"$class": cls, "NS.time": 1.5})
        plist["$objects"].append(
            {"$classes": ["NSOrderedSet", "NSObject"], "$classname": "NSOrderedSet"})
        plist["$top"]["bad"] = uid
    elif kind in ("keys", "objects"):
        plist["$objects"].append({
            "$class": cls, "NS.keys": [uid] if kind == "keys" else [],
            "NS.objects": [] if kind == "keys" else [uid]})
        plist["$objects"].append({
            "$classes": ["NSDictionary", "NSObject"], "$classname": "NSDictionary"})
        plist["$top"]["bad"] = uid
    elif kind in MISSING:
        name, *members = MISSING[kind]
        plist["$objects"].append({"$class": cls, **{m: uid for m in members}})
        plist["$objects"].append({"$classes": [name, "NSObject"], "$classname": name})
        plist["$top"]["bad"] = uid
    elif kind == "uuid":
        plist["$objects"].append({"$class": cls, "NS.uuidbytes": b"x" * 15})
        plist["$objects"].append(
            {"$classes": ["NSUUID", "NSObject"], "$classname": "NSUUID"})
        plist["$top"]["bad"] = uid
    data = dump(plist, flags[0])
    ctx.note(True, data, kind, labels=[kind])
    path = ctx.write(data, "archive.plist")
    try:
        result = scripts.run("decode_nskeyedarchiver_plist", path)
    except RuntimeError:
        return
    if not result.status:
        raise Violation(f"unsupported archive ({kind:s}) printed as {result.text!r}")


SUBTESTS = [
    SubTest("decode", st.tuples(TOP, PLAIN, FLAGS), check_decode, 400, 20000),
    SubTest("rejected", st.tuples(
        TOP, FLAGS, st.sampled_from(
            ["archiver", "version", "class", "keys", "objects", "uuid"] + sorted(MISSING))),
        check_rejected, 140, 2000),
]
