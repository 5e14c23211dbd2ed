"""
Reference model of the font level data of a UFO export: font info, libs, notes. Written from
the meaning of the data, independent of the library's conversion.
"""

from colorsys import hls_to_rgb
from datetime import datetime, timedelta

from fontTools.pens.hashPointPen import HashPointPen
from fontTools.ttLib.tables.ttProgram import Program

from . import ufomodel
from .gens import TTI

TTLIB, TTUFO = "com.fontlab.v2.tth", "public.truetype.instructions"
GTTH, PS = "com.fontlab.ttprogram", "com.adobe.type.autohint.v2"
MAXP = {0x33: "maxZones", 0x34: "maxTwilightPoints", 0x35: "maxStorage", 0x36: "maxFunctionDefs",
        0x37: "maxInstructionDefs", 0x38: "maxStackElements"}
PLAIN = {
    1026: "postscriptFontName", 1025: "postscriptFullName", 1027: "styleMapFamilyName",
    1029: "italicAngle", 1037: "copyright", 1038: "openTypeNameDescription",
    1039: "openTypeNameManufacturer", 1044: "postscriptUniqueID", 1061: "trademark",
    1062: "openTypeNameDesigner", 1063: "openTypeNameDesignerURL",
    1064: "openTypeNameManufacturerURL", 1069: "openTypeNameLicense",
    1070: "openTypeNameLicenseURL", 1090: "macintoshFONDFamilyID", 1092: "macintoshFONDName",
    1118: "openTypeOS2Panose", 1140: "openTypeNameSampleText", 1121: "openTypeOS2VendorID",
    1128: "openTypeNameVersion", 1129: "openTypeNameUniqueID", 1130: "versionMajor",
    1131: "versionMinor", 1135: "unitsPerEm", 1278: "openTypeHheaAscender",
    1279: "openTypeHheaDescender", 1270: "openTypeHheaLineGap",
    1066: "postscriptDefaultCharacter", 2021: "openTypeOS2UnicodeRanges",
}
TT = {
    0x3F: "openTypeOS2WidthClass", 0x3C: "openTypeHeadLowestRecPPEM",
    0x41: "openTypeOS2SubscriptXSize", 0x42: "openTypeOS2SubscriptYSize",
    0x43: "openTypeOS2SubscriptXOffset", 0x44: "openTypeOS2SubscriptYOffset",
    0x45: "openTypeOS2SuperscriptXSize", 0x46: "openTypeOS2SuperscriptYSize",
    0x47: "openTypeOS2SuperscriptXOffset", 0x48: "openTypeOS2SuperscriptYOffset",
    0x49: "openTypeOS2StrikeoutSize", 0x4A: "openTypeOS2StrikeoutPosition",
    0x4D: "openTypeOS2TypoAscender", 0x4E: "openTypeOS2TypoDescender",
    0x4F: "openTypeOS2TypoLineGap", 0x51: "openTypeOS2WinAscent", 0x52: "openTypeOS2WinDescent",
}
BLUES = {1530: ("blue_values", "postscriptBlueValues"),
         1531: ("other_blues", "postscriptOtherBlues"),
         1532: ("family_blues", "postscriptFamilyBlues"),
         1533: ("family_other_blues", "postscriptFamilyOtherBlues"),
         1534: ("stem_snap_h", "postscriptStemSnapH"), 1535: ("stem_snap_v", "postscriptStemSnapV")}
# What the export says if the font says nothing
DEFAULT = {
    "familyName": "Untitled", "italicAngle": 0, "openTypeGaspRangeRecords": [],
    "openTypeHeadCreated": None, "openTypeHeadFlags": [], "openTypeHheaLineGap": 0,
    "openTypeHheaAscender": None, "openTypeHheaDescender": None,
    "openTypeHeadLowestRecPPEM": 0, "openTypeNameDescription": "",
    "openTypeNamePreferredFamilyName": "", "openTypeNamePreferredSubfamilyName": "",
    "openTypeNameRecords": None, "openTypeNameSampleText": "", "openTypeOS2FamilyClass": [0, 0],
    "openTypeOS2Selection": [], "openTypeOS2SubscriptXSize": 0, "openTypeOS2SubscriptYSize": 0,
    "openTypeOS2SubscriptXOffset": 0, "openTypeOS2SubscriptYOffset": 0,
    "openTypeOS2SuperscriptXSize": 0, "openTypeOS2SuperscriptYSize": 0,
    "openTypeOS2SuperscriptXOffset": 0, "openTypeOS2SuperscriptYOffset": 0,
    "openTypeOS2StrikeoutPosition": 0, "openTypeOS2StrikeoutSize": 0, "openTypeOS2Type": [],
    "openTypeOS2UnicodeRanges": [], "openTypeOS2WeightClass": 400, "openTypeOS2WidthClass": 5,
    "postscriptBlueValues": [], "postscriptFamilyBlues": [], "postscriptFamilyOtherBlues": [],
    "postscriptOtherBlues": [], "postscriptStemSnapH": None, "postscriptStemSnapV": None,
    "postscriptBlueScale": None, "postscriptBlueShift": None, "postscriptBlueFuzz": None,
    "postscriptFontName": "Untitled-Regular", "postscriptForceBold": False,
    "postscriptFullName": "Untitled Regular", "postscriptIsFixedPitch": False,
    "postscriptNominalWidthX": None, "postscriptUnderlinePosition": 0,
    "postscriptUnderlineThickness": 0, "styleMapFamilyName": "Untitled",
    "styleMapStyleName": "regular", "styleName": "Regular", "openTypeOS2TypoAscender": 0,
    "openTypeOS2TypoDescender": 0, "openTypeOS2TypoLineGap": 0, "openTypeOS2WinAscent": 0,
    "openTypeOS2WinDescent": 0, "openTypeOS2CodePageRanges": [], "openTypeOS2Panose": None,
    "openTypeOS2VendorID": None, "copyright": None, "trademark": None, "note": None,
    "openTypeNameManufacturer": None, "openTypeNameManufacturerURL": None,
    "openTypeNameDesigner": None, "openTypeNameDesignerURL": None, "openTypeNameLicense": None,
    "openTypeNameLicenseURL": None, "openTypeNameVersion": None, "openTypeNameUniqueID": None,
    "macintoshFONDFamilyID": None, "macintoshFONDName": None, "postscriptUniqueID": None,
    "postscriptDefaultCharacter": None, "versionMajor": None, "versionMinor": None,
    "unitsPerEm": None, "ascender": None, "descender": None, "xHeight": None, "capHeight": None,
}
# Values that depend on nothing that the model describes
LEFT = {"postscriptWeightName", "guidelines"}


def bits(v, n=32):
    return [i for i in range(n) if v >> i & 1]


def info(content, m, minimal, pshints):
    """The font info of a master."""
    out = dict(DEFAULT)
    counts, ps = {}, []
    position = thickness = 0
    for eid, v in content:
        if eid in PLAIN:
            out[PLAIN[eid]] = v
        elif eid in BLUES:
            counts[eid] = v
        elif eid == 2025 and not minimal:
            out["note"] = v
        elif eid == 1024:
            out["familyName"] = out["openTypeNamePreferredFamilyName"] = v
        elif eid == 1137:
            out["styleName"] = out["openTypeNamePreferredSubfamilyName"] = v
        elif eid == 1034:
            out["postscriptIsFixedPitch"] = v != 0
        elif eid == 1048:
            out["openTypeOS2WeightClass"] = 1 if v < 1 else 1000 if v > 1000 else v
        elif eid == 1030:
            position = v
        elif eid == 1031:
            thickness = v
        elif eid == 1138:
            keys = ("nameID", "platformID", "encodingID", "languageID", "string")
            out["openTypeNameRecords"] = [dict(zip(keys, x)) for x in v]
        elif eid == 1265:
            out["openTypeGaspRangeRecords"] = [
                {"rangeMaxPPEM": x["maxPpem"], "rangeGaspBehavior": bits(x["flags"])} for x in v]
        elif eid == 1267:
            out["openTypeOS2Selection"] = [b for b in bits(v, 16) if b not in (0, 5, 6)]
            style = "regular" if v & 64 else "bold" if v & 32 else ""
            style = f"{style}{' italic' if v & 1 else ''}".strip()
            if style:
                out["styleMapStyleName"] = style
        elif eid == 1264:
            ttinfo(v, out)
        elif eid == 1536:
            ps.append(v)
    # The middle of the line becomes the top of the line
    out["postscriptUnderlinePosition"] = position + round(thickness / 2)
    out["postscriptUnderlineThickness"] = thickness
    p = ps[m]
    out |= {"ascender": p["ascender"], "descender": p["descender"], "xHeight": p["x_height"],
            "capHeight": p["cap_height"]}
    if pshints:
        out |= {"postscriptBlueScale": p["blue_scale"], "postscriptBlueShift": p["blue_shift"],
                "postscriptBlueFuzz": p["blue_fuzz"], "postscriptForceBold": p["force_bold"] != 0}
        for eid, n in counts.items():
            key, attr = BLUES[eid]
            if n:
                out[attr] = p[key][:n]
    return out


def ttinfo(v, out):
    for k, attr in TT.items():
        if TTI[k] in v:
            out[attr] = v[TTI[k]]
    if "head_creation" in v:
        # Seconds since the beginning of 1904, CET
        seconds = v["head_creation"] % 2**32 - 2082841200
        t = datetime(1970, 1, 1) + timedelta(seconds=max(0, seconds))
        out["openTypeHeadCreated"] = t.strftime("%Y/%m/%d %H:%M:%S")
    if "os2_fs_type" in v:
        out["openTypeOS2Type"] = bits(v["os2_fs_type"], 16)
    if "os2_s_family_class" in v:
        out["openTypeOS2FamilyClass"] = list(divmod(v["os2_s_family_class"], 256))
    if v.get("Average Width"):
        out["postscriptNominalWidthX"] = abs(v["Average Width"])
    if "head_flags" in v:
        out["openTypeHeadFlags"] = v["head_flags"]["flags"]
    pages = v.get("Codepages", {})
    both = pages.get("os2_ul_code_page_range1", 0) | pages.get("os2_ul_code_page_range2", 0) << 32
    if both:
        out["openTypeOS2CodePageRanges"] = bits(both, 64)


def plain(x):
    """A value of a real font info, in terms of dicts, lists and numbers."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    if hasattr(x, "rangeMaxPPEM"):
        return {k: plain(getattr(x, k)) for k in ("rangeMaxPPEM", "rangeGaspBehavior")}
    if hasattr(x, "nameID"):
        return {k: getattr(x, k)
                for k in ("nameID", "platformID", "encodingID", "languageID", "string")}
    return x


def real_info(i):
    return {k: plain(getattr(i, k)) for k in DEFAULT}


TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF"}


def designspace_differs(content, ds):
    """What is wrong with the names in a designspace, or None."""
    i = info(content, 0, True, False)
    family = (i["openTypeNamePreferredFamilyName"] or i["familyName"]
              or i["styleMapFamilyName"])
    for s in ds.sources:
        if s.familyName != family:
            return f"source {s.name}: family {s.familyName!r} instead of {family!r}"
    for x in ds.instances:
        want = {"familyName": family, "styleMapStyleName": i["styleMapStyleName"],
                "styleMapFamilyName": f"{family} {x.styleName}".strip()}
        for k, v in want.items():
            if getattr(x, k) != v:
                return f"instance {x.styleName}: {k} {getattr(x, k)!r} instead of {v!r}"
    for a in ds.axes:
        # Registered axes have small letters
        tag = TAGS.get(a.name) or a.name.upper()[:4]
        if a.tag != tag:
            return f"axis {a.name}: tag {a.tag!r} instead of {tag!r}"
    names = [x.name for x in ds.instances]
    if len(set(names)) != len(names):
        return f"names of instances {names}"
    return None


def assembly(code):
    """The instructions of a program, without indentation."""
    p = Program()
    p.fromBytecode(bytes.fromhex(code) if isinstance(code, str) else code)
    return words("\n".join(p.getAssembly()))


def words(text):
    return text.split()


def lib(content, minimal):
    """The font lib, without what P19 checks."""
    f = ufomodel.read(content)
    names = ufomodel.unique([g["data"]["name"] for g in f["glyphs"]])
    out = {"public.glyphOrder": names}
    tt, ufo = {}, {}
    grp, keys = ufomodel.groups(f["classes"], f["flags"], names, minimal)
    if grp:
        out["public.groupOrder"] = list(grp)
    if keys:
        out["com.lucasfonts.vfblib.groupKeyGlyphs"] = keys
    for eid, v in content:
        if eid == 2016:
            out["com.fontlab.v5.userData"] = v
        elif eid == 2024:
            out["com.fontlab.v5.metricsClassFlags"] = v
        elif eid in (1272, 1274, 1275, 1604):
            name, default = {1272: ("stemsnaplimit", 68), 1274: ("zoneppm", 48),
                             1275: ("codeppm", None), 1604: ("dropoutppm", 255)}[eid]
            if v != default:
                tt[name] = v
        elif eid == 1264:
            ufo |= {name: v[TTI[k]] for k, name in MAXP.items() if TTI[k] in v}
        elif eid == 1261:
            raw = bytes.fromhex(v)
            ufo["controlValue"] = {
                str(i // 2): int.from_bytes(raw[i : i + 2], "little", signed=True)
                for i in range(0, len(raw), 2)}
        elif eid in (1262, 1263):
            ufo[{1262: "controlValueProgram", 1263: "fontProgram"}[eid]] = assembly(v)
    if ufo and not (set(ufo) == set(MAXP.values()) and not any(ufo.values())):
        out[TTUFO] = {"formatVersion": "1", **ufo}
    out[TTLIB] = tt
    return out


def real_lib(x):
    out = {k: plain(v) for k, v in x.items()}
    out[TTLIB] = {k: v for k, v in out.get(TTLIB, {}).items() if k not in ("stems", "zones")}
    if TTUFO in out:
        out[TTUFO] = {k: words(v) if k.endswith("Program") else v for k, v in out[TTUFO].items()}
    return out


def glyphs(content, minimal, ufo):
    """What is said about each glyph apart from its outline, and without hints."""
    out = {}
    names = ufomodel.unique([m["name"] for eid, m in content if eid == 2001])
    data = None
    for eid, v in content:
        if eid == 2001:
            name = names[len(out)]
            out[name] = data = {"note": None, "lib": {}}
            code = v.get("imported", {}).get("instructions")
            if code:
                pen = HashPointPen(ufo[name].width, glyphSet=ufo)
                ufo[name].drawPoints(pen)
                data["lib"][TTUFO] = {
                    "formatVersion": "1", "assembly": words("\n".join(code)), "id": pen.hash}
        elif data is None:
            continue
        elif eid == 2017 and not minimal:
            data["note"] = v
        elif eid == 2015:
            data["lib"]["com.fontlab.v5.userData"] = v
        elif eid == 2012 and not minimal:
            rgb = hls_to_rgb(v / 255, 0.8, 0.76)
            data["lib"]["public.markColor"] = ",".join(f"{c:.4f}" for c in rgb) + ",1"
        elif eid == 2007 and not minimal:
            data["lib"]["com.fontlab.v5.background"] = {
                **v, "bitmap": {k: x for k, x in v["bitmap"].items() if k != "preview"}}
        elif eid == 2013 and not minimal:
            data["lib"]["com.fontlab.v5.bitmaps"] = [bitmap(x) for x in v]
    return out


def bitmap(b):
    w, h = b["size_pixels"]
    return {
        "imageData": b["bitmap"]["data"][::-1], "bitDepth": 1, "horiAdvance": b["adv"][0],
        "vertAdvance": b["adv"][1], "width": w, "height": h, "horiBearingX": b["origin"][0],
        "horiBearingY": b["origin"][1] + h, "ppemX": b["ppm"], "ppemY": b["ppm"],
    }


def real_glyphs(ufo):
    out = {}
    for g in ufo:
        x = {k: plain(v) for k, v in g.lib.items() if k not in (GTTH, PS)}
        if TTUFO in x:
            x[TTUFO]["assembly"] = words(x[TTUFO]["assembly"])
        out[g.name] = {"note": g.note, "lib": x}
    return out
