"""
Reference model of hints: what the hinting commands, stems, zones and hint sets of an export
must refer to. Written from the meaning of the data, independent of the library.
"""

from base64 import b64decode
from xml.etree import ElementTree

from .ufomodel import contour, split, unique

CODES = {
    "AlignBottom": "alignb", "AlignTop": "alignt", "SingleLinkH": "singleh",
    "SingleLinkV": "singlev", "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev",
    "AlignH": "alignh", "AlignV": "alignv", "InterpolateH": "interpolateh",
    "InterpolateV": "interpolatev", "MDeltaH": "mdeltah", "MDeltaV": "mdeltav",
    "FDeltaH": "fdeltah", "FDeltaV": "fdeltav",
}
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}
POINTS = {"pt": "point", "pti": "point", "pt1": "point1", "pt2": "point2"}
TTH, GTTH, PS = "com.fontlab.v2.tth", "com.fontlab.ttprogram", "com.adobe.type.autohint.v2"
FONT = {1266: "stemsnaplimit", 1271: "zoneppm"}


class Hints:
    """The hints of a font's content."""

    def __init__(self, content):
        self.glyphs = []
        self.links = []
        self.fonts = {}
        for eid, m in content:
            if eid == 2001:
                self.glyphs.append(m)
                self.links.append({"x": [], "y": []})
            elif eid == 2008 and self.glyphs:
                self.links[-1] = m
            elif eid in (1255, 1268, 1269, 1273, 1524):
                self.fonts[eid] = m
        raw = [g["name"] for g in self.glyphs]
        self.names = unique(raw)
        self.names1 = unique(raw, 1)
        self.stems = {d: [self.stem(d, i) for i in range(len(self.fonts.get(1269, {}).get(d, ())))]
                      for d in ("ttStemsH", "ttStemsV")}
        self.zones = {
            d: [{"position": z["position"], "width": z["value"], "top": d == "ttZonesT"}
                for z in self.fonts.get(1255, {}).get(d, ())]
            for d in ("ttZonesB", "ttZonesT")
        }
        every = [*self.zones["ttZonesB"], *self.zones["ttZonesT"]]
        for i, deltas in self.fonts.get(1273, {}).items():
            every[i]["delta"] = {str(k): v for k, v in deltas.items()}

    def stem(self, d, i):
        s = self.fonts[1269][d][i]
        widths = dict(s["round"])
        for eid in (1268, 1524):
            for x in self.fonts.get(eid, {}).get(d, ()):
                if x["stem"] == i:
                    widths.update(x["round"])
        # If two widths start at the same size, the bigger one counts
        return {"width": s["value"], "horizontal": d == "ttStemsV",
                "round": {str(ppm): px for px, ppm in sorted(widths.items())}}

    # ---------------------------------------------------------------- points

    def parts(self, k):
        """Glyphs whose nodes the hints of glyph k count; None if that isn't defined."""
        g = self.glyphs[k]
        comps = g.get("components")
        if not comps:
            return [k]
        if g["nodes"]:
            return None
        gids = [c["gid"] for c in comps]
        if any(self.glyphs[j].get("components") for j in gids):
            return None
        return gids

    def total(self, k):
        return sum(len(self.glyphs[j]["nodes"]) for j in self.parts(k))

    def same(self, k, index):
        """The index of the node that stands for a node in the export."""
        pos = 0
        for j in self.parts(k):
            nodes = self.glyphs[j]["nodes"]
            if index < pos + len(nodes):
                return pos + merged(nodes).get(index - pos, index - pos)
            pos += len(nodes)
        return index

    # ---------------------------------------------------------------- commands

    def commands(self, k):
        """[(code, {role: node index}, zone, stem, other values)]"""
        out = []
        for c in self.glyphs[k].get("tth", ()):
            name, p = c["cmd"], c["params"]
            pts = {POINTS[x]: v for x, v in p.items() if x in POINTS}
            zone = stem = None
            rest = {}
            if "zone" in p:
                zone = self.zones["ttZonesB" if name == "AlignBottom" else "ttZonesT"][p["zone"]]
            if "stem" in p:
                if p["stem"] <= -2:
                    rest["round"] = "true"
                elif p["stem"] >= 0:
                    stem = self.stems["ttStems" + name[-1]][p["stem"]]
            if p.get("align", -1) > -1:
                rest["align"] = ALIGN.get(p["align"], "round")
            if "shift" in p:
                rest.update(delta=str(p["shift"]), ppm1=str(p["ppm1"]), ppm2=str(p["ppm2"]))
            out.append((CODES[name], pts, zone, stem, rest))
        return out

    # ---------------------------------------------------------------- PostScript

    def stems_ps(self, k, m):
        g, links = self.glyphs[k], self.links[k]
        out = {"h": [], "v": []}
        for d in "hv":
            for h in g.get("hints", {}).get(d, ()):
                pos, width = h[m]["pos"], h[m]["width"]
                if width < 0 and width not in (-20, -21):
                    pos, width = pos + width, -width
                out[d].append((f"{d}stem", pos, width))
        for d, axis in (("v", "x"), ("h", "y")):
            i = "xy".index(axis)
            for a, b in links[axis]:
                pa = g["nodes"][a]["points"][m][0][i]
                if b == -1:
                    out[d].append((f"{d}stem", pa + 21, -21))
                elif b == -2:
                    out[d].append((f"{d}stem", pa, -20))
                else:
                    out[d].append((f"{d}stem", pa, g["nodes"][b]["points"][m][0][i] - pa))
        return out

    def hint_sets(self, k, m):
        """[(index of the first node, stems)]"""
        stems = self.stems_ps(k, m)
        masks = self.glyphs[k].get("hints", {}).get("hintmasks")
        if not masks:
            return [(0, stems["h"] + stems["v"])]
        out = [(0, [])]
        for d, i in masks:
            if d == "r":
                out.append((i, []))
            else:
                out[-1][1].append(stems[d][i])
        return out


def merged(nodes):
    """{index of the last node of a contour: first node} where they are one point."""
    out = {}
    i = 0
    for c in split(nodes):
        if (
            not c[0]["flags"] & 8 and len(c) > 1 and c[-1]["type"] == "curve"
            and all(a[0] == b[0] for a, b in zip(c[0]["points"], c[-1]["points"]))
        ):
            out[i + len(c) - 1] = i
        i += len(c)
    return out


def owners(nodes):
    """For each contour, the node index of each exported point; None for control points."""
    out = []
    i = 0
    gone = merged(nodes)
    for c in split(nodes):
        row = []
        for j, n in enumerate(c):
            if n["type"] == "curve":
                row += [None, None]
            row.append(i + j)
        if i + len(c) - 1 in gone:
            # The point moves to the start of the contour
            row = [i, *row[1:-1]]
        out.append(row)
        assert len(row) == len(contour(c, 0))
        i += len(c)
    return out


# ------------------------------------------------------------------ what an export says


class Ufo:
    """The hints of an exported master."""

    def __init__(self, ufo, hints, m):
        self.ufo = ufo
        self.hints = hints
        self.m = m
        lib = ufo.lib.get(TTH, {})
        self.stems = lib.get("stems", {})
        self.zones = lib.get("zones", {})

    def find(self, k, label):
        """(node index, None) of a point label of glyph k, or (None, what is wrong)."""
        parts = self.hints.parts(k)
        total = self.hints.total(k)
        if label == "lsb":
            return total, None
        if label == "rsb":
            return total + 1, None
        start = 0
        name = label
        j = k
        if parts != [k] or self.hints.glyphs[k].get("components"):
            name, _, c = label.rpartition("-")
            if not c.isdigit() or int(c) >= len(parts):
                return None, f"label {label!r} names no component"
            start = sum(len(self.hints.glyphs[x]["nodes"]) for x in parts[: int(c)])
            j = parts[int(c)]
        nodes = self.hints.glyphs[j]["nodes"]
        found = []
        glyph = self.ufo[self.hints.names[j]]
        for row, c in zip(owners(nodes), glyph.contours):
            for i, p in zip(row, c.points):
                if p.name == name:
                    found.append((i, (p.x, p.y)))
        if len(found) != 1:
            return None, f"{len(found)} points are named {label!r}"
        i, pos = found[0]
        if i is None:
            return None, f"label {label!r} is at a control point"
        if pos != tuple(nodes[i]["points"][self.m][0]):
            return None, f"label {label!r} is at {pos} instead of node {i}"
        return start + i, None

    def commands(self, k):
        """The commands in the form of Hints.commands, or what is wrong."""
        text = self.ufo[self.hints.names[k]].lib.get(GTTH)
        if text is None:
            return []
        if isinstance(text, bytes):
            text = b64decode(text).decode("utf-8")
        out = []
        for e in ElementTree.fromstring(text):
            a = dict(e.attrib)
            pts = {}
            for x in ("point", "point1", "point2"):
                if x in a:
                    i, wrong = self.find(k, a.pop(x))
                    if wrong:
                        return f"{e.attrib}: {wrong}"
                    pts[x] = i
            code = a.pop("code")
            for what, table in (("zone", self.zones), ("stem", self.stems)):
                if what in a and a[what] not in table:
                    return f"{e.attrib}: there is no {what} {a[what]!r} in {list(table)}"
            zone = self.zones[a.pop("zone")] if "zone" in a else None
            stem = self.stems[a.pop("stem")] if "stem" in a else None
            out.append((code, pts, zone, stem, a))
        return out

    def hint_sets(self, k):
        lib = self.ufo[self.hints.names[k]].lib.get(PS)
        out = {}
        for s in lib["hintSetList"] if lib else ():
            i, wrong = self.find(k, s["pointTag"])
            if wrong:
                return wrong
            if i in out:
                return f"two hint sets for node {i}"
            out[i] = sorted(s["stems"])
        return out


def expected_sets(hints, k, m):
    """{node index: stems} of the hint sets that an export has."""
    out = {}
    for i, stems in hints.hint_sets(k, m):
        if stems:
            out[hints.same(k, i)] = sorted({f"{a} {b} {c}" for a, b, c in stems})
    return out


def expected_commands(hints, k):
    out = []
    for code, pts, zone, stem, rest in hints.commands(k):
        out.append((code, {x: hints.same(k, i) for x, i in pts.items()}, zone, stem, rest))
    return out
