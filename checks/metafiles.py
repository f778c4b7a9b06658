"""P33: Windows Metafile (WMF) and Enhanced Metafile (EMF) files."""

import struct

import dt
from vf import SubTest, sequences_equal, st

from dtformats import wemf

PROPERTY = "P33"
TITLE = "WMF and EMF: every record is visited once with its own type, size and data"
STATEMENT = (
    "For every Windows Metafile (with or without placeable header) and Enhanced "
    "Metafile, debug mode reports the header(s) and every record once and in file "
    "order, with its type (and the name of the type), its size and exactly its own "
    "data, wherever the record is in the file, and the decoded values of the supported "
    "records: map and stretch mode, saved device context, window origin and extent "
    "(signed), device independent bitmap stretch with the name of the raster operation "
    "that its code encodes, text color and (stock) object identifier. The first record "
    "of an EMF file is that after the header record, whatever its size. A record "
    "smaller than its header, beyond the end of the file, or with too little data for "
    "its values is a parse error, as are unsupported WMF headers; reading ends.")
QUANTIFIER = ("every sequence of records of every type and size, and all 256 raster "
              "operations")
WHY = ("The tests open one file of each kind without debug mode, in which no record "
       "data is looked at.")
FILES = ["dtformats/wemf.py", "dtformats/wmf.yaml", "dtformats/emf.yaml"]
MECHANISM = [
    ("EMF", "EMFFile.ReadFileObject, _ReadRecord, _ReadRecordData"),
    ("WMF", "WMFFile.ReadFileObject, _ReadRecord, _ReadRecordData"),
]
OBSERVE = ["debug output of Open", "errors raised"]
TECHNIQUE = ("property-based round-trip testing against an independent writer; the "
             "raster operation names are evaluated as reverse Polish expressions")
RULE = "three or more records"
ASSUMPTIONS = ["field order and signedness of the WMF records as in MS-WMF"]

# Second word of the raster operation codes 0x00 to 0xff.
LOW_WORDS = (
    "004202890c8900aa0c8800a9086502c50f08024503290b2a03240b2508a500010c8500a60868"
    "02c8086902c95cca1d540d591cc806c5076806ca076601a503850f09024803260b240d551cc5"
    "06c81868036916ca0cc91d580784060a064a0e2a032a0b280688000806c4186401a80388078a"
    "060406440e24004a18a41b2400ea0f0a02490d5d1cc403280b2906c6076a036816c507890605"
    "0cc8195406450e2503250b2606c9076408a9000901a9038907850609004918a906490e291b29"
    "00e9036516c60786060807880606004618a858a6014501e9178a01e817851e280c650cc51d5c"
    "06480e2806460e261b2800e601e517861e290c681e240c69095503c903e909750c491e040c48"
    "1e0517a601c500c61b080e0606660e0806681d7c0ce50c451e0817a901c417aa01c90169588a"
    "18880066070907a8070407a616e6034500c91b050e09066918850065070607a503a901890029"
    "0889074406e90b0602290e05066519740ce8070a07a916e90348074a06e60b0902261ce40d7d"
    "026908c900ca1b041884006a0e040664070807aa03a80184074906e4002008880b0802240e0a"
    "066a070507a41d780ce916ea0349074506e81ce90d750b040228026808c803a50185074606ea"
    "074806e51ce80d791d745ce602e9084902e8084800860a08002108850b05022a0b0a02250265"
    "08c502e5084500890a09008a0a0a02a90062")

WMF_TYPES = (
    "0000:EOF 001e:SAVEDC 0035:REALIZEPALETTE 0037:SETPALENTRIES "
    "00f7:CREATEPALETTE 0102:SETBKMODE 0103:SETMAPMODE 0104:SETROP2 "
    "0105:SETRELABS 0106:SETPOLYFILLMODE 0107:SETSTRETCHBLTMODE "
    "0108:SETTEXTCHAREXTRA 0127:RESTOREDC 012a:INVERTREGION 012b:PAINTREGION "
    "012c:SELECTCLIPREGION 012d:SELECTOBJECT 012e:SETTEXTALIGN 0139:RESIZEPALETTE "
    "0142:DIBCREATEPATTERNBRUSH 0149:SETLAYOUT 01f0:DELETEOBJECT "
    "01f9:CREATEPATTERNBRUSH 0201:SETBKCOLOR 0209:SETTEXTCOLOR "
    "020a:SETTEXTJUSTIFICATION 020b:SETWINDOWORG 020c:SETWINDOWEXT "
    "020d:SETVIEWPORTORG 020e:SETVIEWPORTEXT 020f:OFFSETWINDOWORG "
    "0211:OFFSETVIEWPORTORG 0213:LINETO 0214:MOVETO 0220:OFFSETCLIPRGN "
    "0228:FILLREGION 0231:SETMAPPERFLAGS 0234:SELECTPALETTE "
    "02fa:CREATEPENINDIRECT 02fb:CREATEFONTINDIRECT 02fc:CREATEBRUSHINDIRECT "
    "0324:POLYGON 0325:POLYLINE 0410:SCALEWINDOWEXT 0412:SCALEVIEWPORTEXT "
    "0415:EXCLUDECLIPRECT 0416:INTERSECTCLIPRECT 0418:ELLIPSE 0419:FLOODFILL "
    "041b:RECTANGLE 041f:SETPIXEL 0429:FRAMEREGION 0436:ANIMATEPALETTE "
    "0521:TEXTOUT 0538:POLYPOLYGON 0548:EXTFLOODFILL 061c:ROUNDRECT 061d:PATBLT "
    "0626:ESCAPE 06ff:CREATEREGION 0817:ARC 081a:PIE 0830:CHORD 0922:BITBLT "
    "0940:DIBBITBLT 0a32:EXTTEXTOUT 0b23:STRETCHBLT 0b41:DIBSTRETCHBLT "
    "0d33:SETDIBTODEV 0f43:STRETCHDIB ")

EMF_TYPES = (
    "1:HEADER 2:POLYBEZIER 3:POLYGON 4:POLYLINE 5:POLYBEZIERTO 6:POLYLINETO "
    "7:POLYPOLYLINE 8:POLYPOLYGON 9:SETWINDOWEXTEX 10:SETWINDOWORGEX "
    "11:SETVIEWPORTEXTEX 12:SETVIEWPORTORGEX 13:SETBRUSHORGEX 14:EOF 15:SETPIXELV "
    "16:SETMAPPERFLAGS 17:SETMAPMODE 18:SETBKMODE 19:SETPOLYFILLMODE 20:SETROP2 "
    "21:SETSTRETCHBLTMODE 22:SETTEXTALIGN 23:SETCOLORADJUSTMENT 24:SETTEXTCOLOR "
    "25:SETBKCOLOR 26:OFFSETCLIPRGN 27:MOVETOEX 28:SETMETARGN 29:EXCLUDECLIPRECT "
    "30:INTERSECTCLIPRECT 31:SCALEVIEWPORTEXTEX 32:SCALEWINDOWEXTEX 33:SAVEDC "
    "34:RESTOREDC 35:SETWORLDTRANSFORM 36:MODIFYWORLDTRANSFORM 37:SELECTOBJECT "
    "38:CREATEPEN 39:CREATEBRUSHINDIRECT 40:DELETEOBJECT 41:ANGLEARC 42:ELLIPSE "
    "43:RECTANGLE 44:ROUNDRECT 45:ARC 46:CHORD 47:PIE 48:SELECTPALETTE "
    "49:CREATEPALETTE 50:SETPALETTEENTRIES 51:RESIZEPALETTE 52:REALIZEPALETTE "
    "53:EXTFLOODFILL 54:LINETO 55:ARCTO 56:POLYDRAW 57:SETARCDIRECTION "
    "58:SETMITERLIMIT 59:BEGINPATH 60:ENDPATH 61:CLOSEFIGURE 62:FILLPATH "
    "63:STROKEANDFILLPATH 64:STROKEPATH 65:FLATTENPATH 66:WIDENPATH "
    "67:SELECTCLIPPATH 68:ABORTPATH 70:COMMENT 71:FILLRGN 72:FRAMERGN "
    "73:INVERTRGN 74:PAINTRGN 75:EXTSELECTCLIPRGN 76:BITBLT 77:STRETCHBLT "
    "78:MASKBLT 79:PLGBLT 80:SETDIBITSTODEVICE 81:STRETCHDIBITS "
    "82:EXTCREATEFONTINDIRECTW 83:EXTTEXTOUTA 84:EXTTEXTOUTW 85:POLYBEZIER16 "
    "86:POLYGON16 87:POLYLINE16 88:POLYBEZIERTO16 89:POLYLINETO16 "
    "90:POLYPOLYLINE16 91:POLYPOLYGON16 92:POLYDRAW16 93:CREATEMONOBRUSH "
    "94:CREATEDIBPATTERNBRUSHPT 95:EXTCREATEPEN 96:POLYTEXTOUTA 97:POLYTEXTOUTW "
    "98:SETICMMODE 99:CREATECOLORSPACE 100:SETCOLORSPACE 101:DELETECOLORSPACE "
    "102:GLSRECORD 103:GLSBOUNDEDRECORD 104:PIXELFORMAT 105:DRAWESCAPE "
    "106:EXTESCAPE 108:SMALLTEXTOUT 109:FORCEUFIMAPPING 110:NAMEDESCAPE "
    "111:COLORCORRECTPALETTE 112:SETICMPROFILEA 113:SETICMPROFILEW 114:ALPHABLEND "
    "115:SETLAYOUT 116:TRANSPARENTBLT 118:GRADIENTFILL 119:SETLINKEDUFIS "
    "120:SETTEXTJUSTIFICATION 121:COLORMATCHTOTARGETW 122:CREATECOLORSPACEW ")


RASTER = [(i << 16) | int(LOW_WORDS[i * 4:i * 4 + 4], 16) for i in range(256)]
WMF_TYPES = {int(t.split(":")[0], 16): "META_" + t.split(":")[1]
             for t in WMF_TYPES.split()}
EMF_TYPES = {int(t.split(":")[0]): "EMR_" + t.split(":")[1]
             for t in EMF_TYPES.split()}
NAMED_RASTER = {
    0x00: "BLACKNESS", 0x11: "NOTSRCERASE", 0x33: "NOTSRCCOPY", 0x44: "SRCERASE",
    0x55: "DSTINVERT", 0x5A: "PATINVERT", 0x66: "SRCINVERT", 0x88: "SRCAND",
    0xBB: "MERGEPAINT", 0xC0: "MERGECOPY", 0xCC: "SRCCOPY", 0xEE: "SRCPAINT",
    0xF0: "PATCOPY", 0xFB: "PATPAINT", 0xFF: "WHITENESS"}
MAP_MODES = ["MM_TEXT", "MM_LOMETRIC", "MM_HIMETRIC", "MM_LOENGLISH", "MM_HIENGLISH",
             "MM_TWIPS", "MM_ISOTROPIC", "MM_ANISOTROPIC"]
STRETCH_MODES = ["BLACKONWHITE", "WHITEONBLACK", "COLORONCOLOR", "HALFTONE"]
STOCK = ["WHITE_BRUSH", "LTGRAY_BRUSH", "GRAY_BRUSH", "DKGRAY_BRUSH", "BLACK_BRUSH",
         "NULL_BRUSH", "WHITE_PEN", "BLACK_PEN", "NULL_PEN", None, "OEM_FIXED_FONT",
         "ANSI_FIXED_FONT", "ANSI_VAR_FONT", "SYSTEM_FONT", "DEVICE_DEFAULT_FONT",
         "DEFAULT_PALETTE", "SYSTEM_FIXED_FONT", "DEFAULT_GUI_FONT", "DC_BRUSH",
         "DC_PEN"]
WMF_DECODED = (0x103, 0x107, 0x127, 0x20B, 0x20C, 0xB41)
EMF_DECODED = (0x18, 0x25)


def evaluate(name):
    """Evaluates a raster operation name, a reverse Polish expression."""
    stack = []
    for character in name:
        if character in "DPS":
            stack.append({"D": 0xAA, "P": 0xF0, "S": 0xCC}[character])
        elif character == "N":
            if not stack:
                return None
            stack[-1] ^= 0xFF
        elif character in "OAX":
            if len(stack) < 2:
                return None
            right, left = stack.pop(), stack.pop()
            stack.append({"O": left | right, "A": left & right,
                          "X": left ^ right}[character])
        else:
            return None
    return stack[0] if len(stack) == 1 else None


def even(data):
    return data + b"\0" * (len(data) % 2)


WMF_RECORD = st.one_of(
    st.tuples(st.just(0x103), st.one_of(st.integers(0, 10), dt.u(16))),
    st.tuples(st.just(0x107), st.one_of(st.integers(0, 10), dt.u(16))),
    st.tuples(st.just(0x127), st.integers(0, 0x7FFF)),
    st.tuples(st.sampled_from([0x20B, 0x20C]), st.tuples(dt.s(16), dt.s(16))),
    st.tuples(st.just(0xB41), st.tuples(
        st.one_of(st.sampled_from(RASTER), st.just(0x12345678)),
        *[dt.s(16) for _ in range(8)])),
    st.tuples(st.sampled_from([t for t in WMF_TYPES if t not in WMF_DECODED] + [
        0x1234, 0xFFFF]), st.binary(max_size=60).map(even)))
WMF_EXTRA = st.one_of(st.just(b""), st.binary(max_size=40).map(even))
WMF = st.fixed_dictionaries(dict(
    placeable=st.one_of(st.none(), st.tuples(
        dt.u(16), st.binary(min_size=8, max_size=8), dt.u(16), dt.u(32), dt.u(16))),
    header=st.tuples(st.sampled_from([1, 2]), dt.u(16), dt.u(16), dt.u(16), dt.u(16),
                     dt.u(32), dt.u(16)),
    records=dt.many(st.tuples(WMF_RECORD, WMF_EXTRA), max_size=8)))

EMF_RECORD = st.one_of(
    st.tuples(st.just(0x18), dt.u(32)),
    st.tuples(st.just(0x25), st.one_of(
        dt.u(32), st.integers(0x80000000, 0x80000015))),
    st.tuples(st.sampled_from([t for t in EMF_TYPES if t not in EMF_DECODED] + [
        0, 200, 0x7FFFFFFF]), st.binary(max_size=60)))
EMF = st.fixed_dictionaries(dict(
    header=st.tuples(dt.u(32), dt.u(32), dt.u(32), dt.u(16), dt.u(16), dt.u(32),
                     dt.u(32)),
    rest=st.binary(min_size=40, max_size=40),
    size=st.sampled_from([88, 100, 108, 108, 108, 140]),
    records=dt.many(st.tuples(EMF_RECORD, st.binary(max_size=24)), max_size=8)))


def wmf_data(record):
    (kind, value), extra = record
    if kind in (0x103, 0x107, 0x127):
        return struct.pack("<H", value) + extra
    if kind in (0x20B, 0x20C):
        return struct.pack("<hh", *value) + extra
    if kind == 0xB41:
        return struct.pack("<I8h", *value) + extra
    return value


def build_wmf(case):
    data = b""
    if case["placeable"]:
        handle, box, units, unknown, checksum = case["placeable"]
        data += b"\xd7\xcd\xc6\x9a" + struct.pack("<H", handle) + box + struct.pack(
            "<HIH", units, unknown, checksum)
    kind, version, lower, upper, objects, largest, count = case["header"]
    data += struct.pack("<HHHHHHIH", kind, 9, version, lower, upper, objects, largest,
                        count)
    for record in case["records"]:
        contents = wmf_data(record)
        data += struct.pack("<IH", 3 + len(contents) // 2, record[0][0]) + contents
    return data


def expected_wmf(case):
    pairs, dumps = [], []
    if case["placeable"]:
        handle, box, units, unknown, checksum = case["placeable"]
        pairs.extend([
            ("Signature", "0x9ac6cdd7"), ("Resource handle", dt.hex4(handle)),
            ("Number of units per inch", units), ("Unknown1", dt.hex8(unknown)),
            ("Checksum", dt.hex4(checksum))])
        dumps.append(("Bounding box", box))
    kind, version, lower, upper, objects, largest, count = case["header"]
    pairs.extend([
        ("File type", dt.hex4(kind)), ("Record size", 9), ("Format version", version),
        ("File size lower", lower), ("File size upper", upper),
        ("Maximum number of object", objects), ("Largest record size", largest),
        ("Number of records", count)])
    for record in case["records"]:
        kind, value = record[0]
        data = wmf_data(record)
        size = 6 + len(data)
        pairs.extend([
            ("Record size", f"{size // 2} ({size} bytes)"),
            ("Record type", f"{dt.hex4(kind)} ({WMF_TYPES.get(kind, 'UNKNOWN')})")])
        if data:
            dumps.append(("Record data", data))
        if kind == 0x103:
            name = MAP_MODES[value - 1] if 1 <= value <= 8 else "UNKNOWN"
            pairs.append(("Map mode", f"{dt.hex4(value)} ({name})"))
        elif kind == 0x107:
            name = STRETCH_MODES[value - 1] if 1 <= value <= 4 else "UNKNOWN"
            pairs.append(("Stretch mode", f"{dt.hex4(value)} ({name})"))
        elif kind == 0x127:
            pairs.append(("Number of saved device context", value))
        elif kind in (0x20B, 0x20C):
            pairs.extend([("X coordinate", value[1]), ("Y coordinate", value[0])])
        elif kind == 0xB41:
            (code, source_height, source_width, source_y, source_x, height, width, y,
             x) = value
            pairs.extend([
                ("Raster operation", code), ("Source height", source_height),
                ("Source width", source_width), ("Source X coordinate", source_x),
                ("Source Y coordinate", source_y), ("Destination height", height),
                ("Destination width", width), ("Destination X coordinate", x),
                ("Destination Y coordinate", y)])
    return pairs, dumps


def emf_data(record):
    (kind, value), extra = record
    if kind in EMF_DECODED:
        return struct.pack("<I", value) + extra
    return value


def build_emf(case):
    version, size, count, handles, unknown, length, offset = case["header"]
    rest = case["rest"]
    data = struct.pack("<II", 1, case["size"]) + rest[:32] + b" EMF" + struct.pack(
        "<IIIHHII", version, size, count, handles, unknown, length, offset)
    data = (data + rest + b"\x77" * 60)[:case["size"]]
    for record in case["records"]:
        contents = emf_data(record)
        data += struct.pack("<II", record[0][0], 8 + len(contents)) + contents
    # The header record is followed by at least an end of file record.
    return data + struct.pack("<II12s", 14, 20, b"\0" * 12)


def expected_emf(case):
    version, size, count, handles, unknown, length, offset = case["header"]
    pairs = [
        ("Record type", "0x0001 (EMR_HEADER)"), ("Record size", case["size"]),
        ("Signature", "0x464d4520"), ("Format version", dt.hex4(version)),
        ("File size", size), ("Number of records", count),
        ("Number of handles", handles), ("Unknown (reserved)", dt.hex4(unknown)),
        ("Description string size", length),
        ("Description string offset", dt.hex4(offset))]
    dumps = []
    for record in case["records"] + [((14, b"\0" * 12), b"")]:
        kind, value = record[0]
        data = emf_data(record)
        pairs.extend([
            ("Record type", f"{dt.hex4(kind)} ({EMF_TYPES.get(kind, 'UNKNOWN')})"),
            ("Record size", 8 + len(data))])
        if data:
            dumps.append(("Record data", data))
        if kind == 0x18:
            pairs.append(("Color", dt.hex4(value)))
        elif kind == 0x25:
            index = value - 0x80000000
            name = STOCK[index] if 0 <= index < len(STOCK) else None
            pairs.append(("Object identifier",
                          dt.hex8(value) + (f" ({name})" if name else "")))
    return pairs, dumps


def raster_shown(pairs):
    """Replaces the raster operation by its code, after checking its name."""
    for label, value in pairs:
        if label == "Raster operation":
            code = int(value.split(" ")[0], 16)
            name = value.split("(")[1].rstrip(")")
            index = code >> 16
            if code not in RASTER:
                valid = name == "UNKNOWN"
            elif index in NAMED_RASTER:
                valid = name == NAMED_RASTER[index]
            else:
                valid = evaluate(name) == index
            if not valid:
                raise dt.Violation(f"raster operation 0x{code:08x} named {name!r}")
            value = str(code)
        yield label, value


def check(cls, builder, expecter):
    def run(case, ctx):
        data = builder(case)
        path = ctx.write(data, "metafile")
        ctx.note(len(case["records"]) > 2, data, [r[0] for r in case["records"]],
                 labels=[f"records {min(len(case['records']), 4)}"])
        _, text = dt.read_file(cls, path)
        pairs, dumps = expecter(case)
        names = {label for label, _ in pairs}
        sequences_equal(
            raster_shown(p for p in dt.values(text) if p[0] in names),
            [(label, str(value)) for label, value in pairs], "values")
        sequences_equal([d for d in dt.dumps(text)
                         if d[0] in ("Record data", "Bounding box")
                         and not (d[0] == "Record data" and d[1] == b"")],
                        dumps, "record data")
        dt.read_file(cls, path, debug=False)
        dt.files_unchanged(path, data)
    return run


def check_rejected(value, ctx):
    wmf, emf, how, where = value
    cls = wemf.WMFFile if where % 2 else wemf.EMFFile
    where //= 2
    if cls is wemf.WMFFile:
        data = build_wmf(wmf)
        start = 22 if wmf["placeable"] else 0
        if how == "size":
            data += struct.pack("<IH", where % 3, 0x1E) + b"\0" * 10
        elif how == "end":
            data += struct.pack("<IH", 4 + where, 0x1E) + b"\0"
        elif how == "data":
            kind, need = ((0x103, 1), (0x107, 1), (0x127, 1), (0x20B, 2), (0x20C, 2),
                          (0xB41, 10))[where % 6]
            count = where % need
            data += struct.pack("<IH", 3 + count, kind) + b"\0" * (2 * count)
        elif how == "header":
            offset, wrong = (
                (0, 0), (0, 3 + where), (2, 8), (2, 10 + where),
                (0, 4 << (where // 8 % 14)), (0, 1 | 4 << (where // 8 % 14)),
                (2, 9 ^ (1 << (where // 8 % 16))), (2, 18))[where % 8]
            data = data[:start + offset] + struct.pack("<H", wrong) + data[
                start + offset + 2:]
        else:
            data = data[:where % (start + 18)]
    else:
        data = build_emf(emf)
        if how == "size":
            data += struct.pack("<II", 33, where % 8) + b"\0" * 10
        elif how == "end":
            data += struct.pack("<II", 33, 10 + where) + b"\0"
        elif how == "data":
            data += struct.pack("<II", EMF_DECODED[where % 2], 8 + where % 4) + (
                b"\0" * (where % 4))
        elif how == "header":
            data = data[:4] + struct.pack("<I", where % 88) + data[8:]
        else:
            data = data[:where % 88]
    path = ctx.write(data, "reject")
    ctx.note(True, data, (cls.__name__, how, where), labels=[f"{cls.__name__} {how}"])
    dt.rejected(cls, path, f"{cls.__name__} {how} {where}")


GENERATORS = {"wmf": WMF.map(build_wmf), "emf": EMF.map(build_emf)}
SUBTESTS = [
    SubTest("WMF records", WMF, check(wemf.WMFFile, build_wmf, expected_wmf), 500, 20000),
    SubTest("EMF records", EMF, check(wemf.EMFFile, build_emf, expected_emf), 400, 15000),
    SubTest("raster operations", st.integers(0, 255).flatmap(
        lambda i: st.just(dict(placeable=None, header=(1, 0x300, 0, 0, 0, 0, 0), records=[
            ((0xB41, (RASTER[(i + k * 37) % 256], 1, 2, 3, 4, 5, 6, 7, 8)), b"")
            for k in range(64)]))),
            check(wemf.WMFFile, build_wmf, expected_wmf), 60, 300),
    SubTest("rejected", st.tuples(
        WMF, EMF, st.sampled_from(["size", "end", "data", "header", "cut"]),
        st.integers(0, 4000)), check_rejected, 400, 10000),
]
