"""
Reference model of the export: what UFO masters, designspace and pens show for the content
of a font's entries. Written from the meaning of the data, independent of the library.

content: [(entry id, content)] in file order.
"""

FIRST, SECOND = 1024, 2048


# ------------------------------------------------------------------ outlines


def split(nodes):
    """The nodes of each contour."""
    out = []
    for n in nodes:
        if n["type"] == "move" or not out:
            out.append([])
        out[-1].append(n)
    return out


def contour(nodes, m):
    """UFO points of one contour: [(x, y, type, smooth)]."""
    pts = []
    quad = False
    for n in nodes:
        p = [tuple(q) for q in n["points"][m]]
        smooth = bool(n["flags"] & 1)
        t = n["type"]
        if t == "move":
            pts.append((*p[0], "move", smooth))
            quad = False
        elif t == "line":
            pts.append((*p[0], "qcurve" if quad else "line", smooth))
            quad = False
        elif t == "curve":
            pts += [(*p[1], None, False), (*p[2], None, False), (*p[0], "curve", smooth)]
            quad = False
        else:
            pts.append((*p[0], None, False))
            quad = True
    if nodes[0]["flags"] & 8:
        return pts
    last = pts[-1]
    first = pts[0]
    if last[2] == "curve" and all(a[0] == b[0] for a, b in zip(nodes[0]["points"], nodes[-1]["points"])):
        # The curve already ends in the start point, in all masters
        return [last, *pts[1:-1]]
    if last[2] in ("line", "curve", "qcurve"):
        pts[0] = (*first[:2], "line", first[3])
    elif last[2] is None:
        pts[0] = (*first[:2], "qcurve", first[3])
    return pts


def contours(nodes, m):
    return [contour(c, m) for c in split(nodes)]


def factor(v):
    v = round(v, 15)
    return int(v) if v == int(v) else v


def components(g, names, m, exact=False):
    f = (lambda v: v) if exact else factor
    return [
        (names[c["gid"]], (f(c["scaleX"][m]), 0, 0, f(c["scaleY"][m]),
                           c["offsetX"][m], c["offsetY"][m]))
        for c in g.get("components", ())
    ]


def point_events(g, names, m):
    """What a point pen sees: as fontTools' RecordingPointPen, without names."""
    out = []
    for c in contours(g.get("nodes", []), m):
        out.append(("begin",))
        out += [("point", (x, y), t, s) for x, y, t, s in c]
        out.append(("end",))
    return out + [("component", *c) for c in components(g, names, m)]


def segment_events(g, names, m=0):
    """What a segment pen sees: as fontTools' RecordingPen."""
    out = []
    for c in split(g.get("nodes", [])):
        start = tuple(c[0]["points"][m][0])
        quad = []
        out.append(("moveTo", (start,)))
        for n in c[1:]:
            p = [tuple(q) for q in n["points"][m]]
            if n["type"] == "qcurve":
                quad.append(p[0])
            elif n["type"] == "line":
                out.append(("qCurveTo", (*quad, p[0])) if quad else ("lineTo", (p[0],)))
                quad = []
            else:
                out.append(("curveTo", (p[1], p[2], p[0])))
        if quad:
            out.append(("qCurveTo", (*quad, start)))
        out.append(("endPath" if c[0]["flags"] & 8 else "closePath", ()))
    for base, tr in components(g, names, m, exact=True):
        out.append(("addComponent", (base, tr)))
    return out


# ------------------------------------------------------------------ guidelines


def guidelines(guides, props, m):
    out = []
    for d in "hv":
        row = []
        for g in guides[d]:
            g = g[m]
            a = g["angle"] if d == "h" else 90 - g["angle"]
            if a < 0:
                a += 360
            if a > 360:
                a -= 360
            row.append({
                "x": g["pos"] if d == "v" else 0, "y": g["pos"] if d == "h" else 0,
                "angle": round(a, 2), "name": None, "color": None,
            })
        for p in props[d] if props else ():
            if p["index"] <= len(row):
                t = row[p["index"] - 1]
                if "color" in p:
                    c = p["color"]
                    t["color"] = ",".join(f"{int(c[k:k + 2], 16) / 255:0.4f}" for k in (1, 3, 5)) + ",1"
                if "name" in p:
                    t["name"] = p["name"]
        out += row
    return out


# ------------------------------------------------------------------ groups and kerning


def groups(classes, flags, names, minimal):
    """{UFO name: glyph names} before each glyph is limited to one group, and key glyphs."""
    raw = {}
    for text in classes:
        if ":" not in text:
            continue
        name, rest = text.split(":")
        raw.setdefault(name, [g for g in rest.split(" ") if g])
    out, keys = {}, {}
    for name, members in raw.items():
        key = [g.strip("'") for g in members if g.endswith("'")]
        all_ = key + [g for g in members if not g.endswith("'")]
        missing = [g for g in all_ if g not in names]
        gone = len(missing) == len(all_)
        kept = [g for g in all_ if g in names] if minimal and not gone else all_
        k = next((g for g in key if g not in missing or gone), None)
        if name.startswith("_"):
            if name not in flags:
                continue
            sides = [s for bit, s in ((FIRST, 1), (SECOND, 2)) if flags[name][0] & bit]
            targets = [f"public.kern{s}.{name}" for s in sides]
        else:
            targets = [name]
        for t in targets:
            if k is not None:
                keys.setdefault(t, k)
            out[t] = kept
    return out, keys


def kerning(pairs, grp, keys):
    """Groups with each glyph in one group per side; {(left, right): values}; exceptions."""
    member = {1: {}, 2: {}}
    for name, members in grp.items():
        for s in (1, 2):
            if name.startswith(f"public.kern{s}"):
                for g in members:
                    member[s].setdefault(g, name)
    final = {n: g for n, g in grp.items() if not n.startswith("public.kern")}
    for s in (1, 2):
        for g, name in member[s].items():
            final.setdefault(name, []).append(g)
    of = {}
    for name, key in keys.items():
        for s in (1, 2):
            if name.startswith(f"public.kern{s}"):
                of.setdefault((s, key), name)

    def ref(s, g):
        name = of.get((s, g))
        return name if name in final else g

    named = {(ref(1, a), ref(2, b)): v for (a, b), v in pairs.items()}

    def exception(a, b):
        return any(g in member[s] and (s, g) not in of for s, g in ((1, a), (2, b)))

    return final, named, exception


# ------------------------------------------------------------------ the whole font


def unique(names, first=0):
    """The names with a number for all but the first glyph of the same name."""
    out = []
    for name in names:
        n, i = name, first
        while n in out:
            n = f"{name}#{i}"
            i += 1
        out.append(n)
    return out


def read(content, minimal=False):
    """The glyphs and font level data of the entries."""
    f = {
        "glyphs": [], "classes": [], "flags": {}, "guides": None, "gprops": None, "ps": [],
        "upm": None, "masters": [], "locations": {}, "axes": [], "axis_count": 0, "counts": None,
        "maps": None, "instances": [], "nm": 1,
    }
    g = None
    for eid, m in content:
        if eid == 2001:
            g = {"data": m, "unicodes": [], "anchors": [], "mm": None, "gprops": None,
                 "mask": [], "mask_size": []}
            f["glyphs"].append(g)
        elif g is not None and eid in (1250, 1253):
            g["unicodes"] += m
        elif g is not None and eid == 2018:
            if "anchors" in m:
                g["anchors"] = m["anchors"]
        elif g is not None and eid == 2029:
            g["mm"] = m
        elif g is not None and eid == 2031:
            g["gprops"] = m
        elif g is not None and eid == 2009:
            g["mask"] = m.get("nodes", [])
        elif g is not None and eid == 2011:
            g["mask_size"].append(m)
        elif g is not None and eid == 2028:
            g["mask_size"] += m
        elif eid == 1277:
            f["classes"].append(m)
        elif eid == 2026:
            f["flags"] = m
        elif eid == 1294:
            f["guides"] = m
        elif eid == 1296:
            f["gprops"] = m
        elif eid == 1536:
            f["ps"].append(m)
        elif eid == 1135:
            f["upm"] = m
        elif eid == 1503:
            f["nm"] = m
        elif eid == 1504:
            f["masters"].append(m)
        elif eid == 1505:
            f["locations"][m[0]] = m[1]
        elif eid == 1513:
            f["axis_count"] = m
        elif eid == 1514:
            f["axes"].append(m)
        elif eid == 1515:
            f["counts"] = m
        elif eid == 1516:
            f["maps"] = m
        elif eid == 1254:
            f["instances"] = m
    n = 2 ** f["axis_count"] if f["axis_count"] else 1
    f["masters"] += [f"m{i}" for i in range(len(f["masters"]), n)]
    return f


def masters(content, minimal=False, move_groups=True, psinfo=True):
    """The expected UFO masters, reduced to what is compared."""
    f = read(content)
    names = unique([g["data"]["name"] for g in f["glyphs"]])
    grp, keys = groups(f["classes"], f["flags"], names, minimal)
    pairs = {}
    for name, g in zip(names, f["glyphs"]):
        for gid, values in g["data"].get("kerning", {}).items():
            pairs[name, names[gid]] = values
    final, named, exception = kerning(pairs, grp, keys)
    if move_groups:
        final = {n: v for n, v in final.items() if n.startswith(("public.kern", "."))}
    out = []
    for m in range(len(f["masters"])):
        u = {"order": names, "glyphs": {}, "masks": {}}
        for name, g in zip(names, f["glyphs"]):
            d = g["data"]
            w, h = d["metrics"][m]
            anchors = [dict(a) for a in g["anchors"]]
            if g["mm"] is not None:
                for a, p in zip(anchors, g["mm"]):
                    a["x"], a["y"] = p["x"][m], p["y"][m]
            u["glyphs"][name] = {
                "width": w, "height": h, "unicodes": list(g["unicodes"]),
                "contours": contours(d["nodes"], m),
                "components": components(d, names, m),
                "anchors": [(a["x"], a["y"], a.get("name")) for a in anchors],
                "guidelines": guidelines(d["guides"], g["gprops"], m)
                if "guides" in d and not minimal else [],
            }
            if g["mask"] and not minimal:
                w, h = g["mask_size"][m] if g["mask_size"] else (w, h)
                u["masks"][name] = (w, h, contours(g["mask"], m))
        u["groups"] = final
        u["kerning"] = {k: v[m] for k, v in named.items() if v[m] or exception(*k)}
        ps = f["ps"][m]
        u["info"] = {
            "unitsPerEm": f["upm"], "ascender": ps.get("ascender"),
            "descender": ps.get("descender"), "xHeight": ps.get("x_height"),
            "capHeight": ps.get("cap_height"),
            "guidelines": guidelines(f["guides"], f["gprops"], m)
            if f["guides"] is not None and not minimal else [],
        }
        out.append(u)
    return out


def guide(g):
    return {"x": g.x, "y": g.y, "angle": g.angle, "name": g.name, "color": g.color}


def reduced(ufo):
    """The same form, of a real UFO master."""
    u = {"order": list(ufo.lib.get("public.glyphOrder", [])), "glyphs": {}, "masks": {}}
    if list(ufo.keys()) != u["order"]:
        u["order"] = [u["order"], list(ufo.keys())]
    for g in ufo:
        u["glyphs"][g.name] = {
            "width": g.width, "height": g.height, "unicodes": list(g.unicodes),
            "contours": points(g),
            "components": [(c.baseGlyph, tuple(c.transformation)) for c in g.components],
            "anchors": [(a.x, a.y, a.name) for a in g.anchors],
            "guidelines": [guide(x) for x in g.guidelines],
        }
    if "public.background" in ufo.layers:
        for g in ufo.layers["public.background"]:
            u["masks"][g.name] = (g.width, g.height, points(g))
    u["groups"] = {k: list(v) for k, v in ufo.groups.items()}
    u["kerning"] = dict(ufo.kerning)
    i = ufo.info
    u["info"] = {
        "unitsPerEm": i.unitsPerEm, "ascender": i.ascender, "descender": i.descender,
        "xHeight": i.xHeight, "capHeight": i.capHeight,
        "guidelines": [guide(x) for x in i.guidelines or ()],
    }
    return u


def points(g):
    return [[(p.x, p.y, p.type, p.smooth) for p in c.points] for c in g.contours]


# ------------------------------------------------------------------ designspace


def designspace(content, stem="out"):
    """The expected designspace or None."""
    f = read(content)
    if not f["axes"]:
        return None
    axes = []
    for i, name in enumerate(f["axes"]):
        n = f["counts"][i]
        maps = [(u, round(d * 1000)) for u, d in f["maps"][10 * i : 10 * i + n]]
        user = [u for u, _ in maps]
        axes.append({"name": name, "map": maps, "minimum": min(user) if user else None,
                     "default": min(user) if user else None, "maximum": max(user) if user else None,
                     "labels": [(p["name"], p["values"][0]) for p in f["instances"]]
                     if f["axis_count"] == 1 else []})
    sources = [
        {"filename": f"{stem}.ufo" if m == 0 else f"{stem}-{m}.ufo", "name": f["masters"][m].strip(),
         "location": {a: 1000 * f["locations"][m + 1][i] for i, a in enumerate(f["axes"])}}
        for m in range(f["nm"])
    ]
    instances = [
        {"style": p["name"], "location": {a: p["values"][i] for i, a in enumerate(f["axes"])}}
        for p in f["instances"]
    ]
    return {"axes": axes, "sources": sources, "instances": instances}


def reduced_designspace(ds):
    if ds is None:
        return None
    axes = []
    for a in ds.axes:
        x = {"name": a.name, "map": [tuple(p) for p in a.map], "minimum": a.minimum,
             "default": a.default, "maximum": a.maximum,
             "labels": [(x.name, x.userValue) for x in a.axisLabels]}
        if not a.map:
            x["minimum"] = x["default"] = x["maximum"] = None
        axes.append(x)
    return {
        "axes": axes,
        "sources": [{"filename": s.filename, "name": s.name, "location": dict(s.designLocation)}
                    for s in ds.sources],
        "instances": [{"style": i.styleName, "location": dict(i.userLocation)} for i in ds.instances],
    }


def difference(a, b, path=""):
    """First difference between expected a and found b; numbers by value."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing, expected {a[k]!r:.160}"
            if d := difference(a[k], b[k], f"{path}/{k}"):
                return d
        for k in b:
            if k not in a:
                return f"{path}/{k}: unexpected {b[k]!r:.160}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if d := difference(x, y, f"{path}/{i}"):
                return d
        if len(a) != len(b):
            return f"{path}: expected {len(a)} items, found {len(b)}: {list(b)!r:.160}"
        return None
    if a != b:
        return f"{path}: expected {a!r:.160}, found {b!r:.160}"
    return None
