"""
Font specifications (plain JSON, so that they can be minimised and replayed) and the
fonts they describe: for every entry the bytes in the source file, the content the
library is expected to show, and the canonical bytes a save writes for that content.
"""

from copy import copy
from random import Random

from . import gens
from .wire import HEADER, W, frame

# Never more than once per font: they set font-wide values when a font is loaded
UNIQUE = {10, 1503, 1269, 2}
BLOCK_ONLY_END = 2


class Item:
    __slots__ = ("eid", "src", "canon", "model", "long", "declared", "ctx", "gi")

    def __init__(self, eid, src, canon, model, long, declared, ctx, gi):
        self.eid = eid
        self.src = src
        self.canon = canon
        self.model = model
        self.long = long
        self.declared = declared
        self.ctx = ctx
        self.gi = gi


class Font:
    def __init__(self, spec):
        self.spec = spec
        self.items: list[Item] = []
        self.ctx = None
        self.header = {}
        self.header_src = HEADER
        self.trailer = b""

    def source(self) -> bytes:
        out = bytearray(self.header_src)
        for it in self.items:
            out += frame(it.eid, it.src, it.long, it.declared)
        return bytes(out + self.trailer)

    def bounds(self):
        """[(start, end)] of every entry in the source file."""
        pos = len(self.header_src)
        out = []
        for it in self.items:
            n = len(frame(it.eid, it.src, it.long, it.declared))
            out.append((pos, pos + n))
            pos += n
        return out


def header_bytes(minor: int) -> bytes:
    b = bytearray(HEADER)
    b[7] = minor
    return bytes(b)


def encode(eid, model, ctx, noise=None) -> bytes:
    w = W(noise)
    gens.ALL[eid][1](w, model, ctx)
    return w.get()


def context(spec) -> gens.Ctx:
    c = gens.Ctx(spec["platform"], spec["nm"], spec.get("axes", 0), spec.get("export", False))
    c.simple_curves = spec.get("curves")
    c.kern = spec.get("kern", False)
    c.hints = spec.get("hints", False)
    c.valid = spec.get("valid", c.export)
    c.glyphs = sum(1 for e in spec["entries"] if e[0] == 2001)
    return c


def build(spec) -> Font:
    f = Font(spec)
    c = f.ctx = context(spec)
    minor = spec.get("minor", 1)
    f.header = {
        "signature": 0x464C571A, "app_version": 0x31, "file_version": 0x30,
        "version_major": 3, "version_minor": minor,
    }
    off = spec.get("offset", 44)
    h = bytearray(header_bytes(minor)[:12]) + bytes(off - 12)
    h[8:12] = off.to_bytes(4, "little")
    f.header_src = bytes(h)
    f.trailer = bytes.fromhex(spec.get("trailer", ""))

    entries = [[1, 1, 0, 0], [10, spec.get("vseed", 1), 0, 0], [1503, 0, 0, 0], *spec["entries"]]
    # The number of stems is needed for entries at any place in the file
    for i, e in enumerate(entries):
        if e[0] == 1269:
            m = gens.g_stems(rng(e), c, False)
            c.stems = (len(m["ttStemsV"]), len(m["ttStemsH"]))
    for e in entries:
        eid, _, nc, big = e[:4]
        r = rng(e)
        if eid == 2001:
            c.gi += 1
            c.gdef_anchors = None
        elif eid == 1503:
            f.items.append(Item(1503, spec["nm"].to_bytes(2, "little"), spec["nm"].to_bytes(2, "little"), spec["nm"], False, None, c, -1))
            continue
        elif eid == 1505:
            pass
        before = copy(c)
        model = gens.ALL[eid][0](r, c, bool(big))
        if len(e) > 4 and e[4] is not None:
            model = e[4]  # fixed content
        noise = Random(f"n{e[1]}/{eid}") if nc else None
        src = encode(eid, model, c, noise)
        canon = encode(eid, model, c)
        model = gens.strip_raw(model)
        if eid == 2001:
            c.cur = model
            c.sizes[c.gi] = None if model.get("components") else len(model.get("nodes", ()))
        elif eid == 2018:
            c.gdef_anchors = len(model.get("anchors", ()))
        elif eid == 1255:
            c.zones = (len(model["ttZonesT"]), len(model["ttZonesB"]))
        elif eid == 1515:
            c.map_counts = model
        elif eid == 1505:
            c.master_i += 1
        long = bool(noise and noise.random() < 0.1)
        declared = None
        if eid == 1410 and noise:
            declared = noise.randint(0, 300)
            long = False
        f.items.append(Item(eid, src, canon, model, long, declared, before, c.gi if eid in gens.GLYPH else -1))
    return f


def content(eid, seed, ctx, big=False):
    """Other content for an entry: (model, canonical bytes)."""
    ctx = copy(ctx)
    model = gens.ALL[eid][0](Random(f"{seed}/{eid}"), ctx, big)
    canon = encode(eid, model, ctx)
    return gens.strip_raw(model), canon


def rng(e) -> Random:
    return Random(f"{e[1]}/{e[0]}")


# ------------------------------------------------------------------ specifications


def seed(r) -> int:
    return r.randrange(2**40)


def wild_spec(r: Random, max_font=10, max_glyphs=4, big=0.0) -> dict:
    """Any entries in any order, with any legal content."""
    entries = []
    if r.random() < 0.004:
        max_font, max_glyphs = r.choice(((300, 4), (10, 300), (130, 130), (1200, 2)))
    ids = [i for i in gens.FONT if i not in UNIQUE]
    gids = [i for i in gens.GLYPH if i != 2001]
    if r.random() < 0.4:
        entries.append(1269)
    entries += [r.choice(ids) for _ in range(r.randint(0, max_font))]
    for _ in range(r.randint(0, max_glyphs)):
        entries.append(2001)
        entries += [r.choice(gids) for _ in range(r.choice((0, 1, 2, 4)))]
    entries += [r.choice(ids) for _ in range(r.randint(0, 3))]
    if r.random() < 0.25:
        entries.insert(r.randrange(len(entries) + 1), r.choice(gens.UNKNOWN))
    bigs = [i for i, e in enumerate(entries) if e in BIG]
    b = r.choice(bigs) if bigs and r.random() < big else None
    if b is None and r.random() < big:
        b = 0
        entries.insert(0, r.choice(sorted(BIG)))
    noisy = r.choice((0.0, 0.3, 0.9))
    nm = r.choice((1, 1, 1, 2, 2, 3, 4, 16)) if r.random() < 0.95 else 8
    spec = {
        "platform": r.choice(("macos", "windows")),
        "nm": nm,
        "axes": {1: 0, 2: 1, 3: 2, 4: 2, 8: 3, 16: 4}[nm],
        "minor": r.randint(0, 255),
        "vseed": seed(r),
        "entries": [
            [e, seed(r), int(r.random() < noisy), int(i == b)] for i, e in enumerate(entries)
        ],
    }
    if r.random() < 0.1:
        spec["offset"] = 44 + r.randint(0, 20)
    if r.random() < 0.9:
        spec["entries"].append([2, 0, 0, 0, ""])
        if r.random() < 0.1:
            spec["trailer"] = r.randbytes(r.randint(1, 8)).hex()
    return spec


# Entries that can be made larger than 64 KiB
BIG = {1133, 2014, 1276, 2025, 1250, 1261, 2017, 2023, 2001, 2007}
FONT_STYLE = 1267
EXPORT_FONT = [
    1501, 1500, 1026, 1517, 1044, 1046, 1038, 1025, 1027, 1024, 1056, 1092, 1028, 1069,
    1070, 1037, 1061, 1062, 1063, 1064, 1039, 1048, 1029, 1047, 1030, 1031, 1054, 1118,
    1127, 1137, 1140, 1121, 1133, 1132, 1130, 1131, 1090, 1093, 1068, 1530, 1531, 1532,
    1533, 1534, 1535, 1267, 1261, 1262, 1263, 1265, 1264, 1270, 1278, 1279, 2021, 1272,
    1274, 1275, 1604, 2032, 1141, 1136, 2025, 2030, 2016, 2024, 2026, 2014, 1743, 1744,
    1742,
]


def export_spec(r: Random, max_glyphs=6, nm=None, curves=None, hints=True) -> dict:
    """A font that can be exported to UFO and designspace."""
    axes = {1: 0, 2: 1, 4: 2}[nm] if nm else r.choice((0, 0, 1, 1, 2))
    if nm is None and axes == 2 and r.random() < 0.2:
        axes = r.choice((3, 3, 4))
    nm = 2**axes
    if r.random() < 0.003:
        max_glyphs = r.choice((40, 120, 300))
    curves = curves or r.choice(("t1", "tt"))
    ids: list = [1135]
    pick = r.choice((0, 4, 12, 30))
    ids += sorted(r.sample(EXPORT_FONT, pick), key=EXPORT_FONT.index)
    if curves == "tt" and hints:
        if r.random() < 0.3:
            ids.append(1266)
        ids.append(1268)
        ids.append(1269)
        if r.random() < 0.5:
            ids.append(1524)
        ids.append(1255)
        if r.random() < 0.5:
            ids.append(1273)
    if r.random() < 0.5:
        ids.append(1276)
    kern = r.random() < 0.3
    if kern or r.random() < 0.5:
        ids += [1277] * (r.choice((1, 2, 3)) + kern)
        if (kern or r.random() < 0.7) and 2026 not in ids:
            ids.append(2026)
    ids.append(1513)
    ids += [1514] * axes
    if axes:
        ids += [1515, 1516]
    # Some fonts don't name all of their masters
    named = r.randrange(nm) if r.random() < 0.12 else nm
    for i in range(nm):
        ids += [1504, 1505] if i < named else [1505]
    if r.random() < 0.5:
        ids += [1247] if r.random() < 0.5 else []
        ids.append(1254)
    ids += [1536] * nm
    if r.random() < 0.5:
        ids += [1294]
        if r.random() < 0.5:
            ids += [1296]
    if r.random() < 0.2:
        ids.append(1295)
    for _ in range(r.randint(1, max_glyphs)):
        ids.append(2001)
        if r.random() < 0.3:
            ids.append(2008)
        for g in (2007, 2013, 2023, 2019, 2010, 2009):
            if r.random() < 0.07:
                ids.append(g)
                if g == 2009 and r.random() < 0.7:
                    # The size of the mask in the first master, and in the other ones
                    ids += [2011, 2028] if nm > 1 else [2011]
        if r.random() < 0.8:
            ids.append(1250)
        if r.random() < 0.1:
            ids.append(1253)
        for g in (2012, 2015, 2017):
            if r.random() < 0.15:
                ids.append(g)
        if r.random() < 0.3:
            ids.append(2018)
            if r.random() < 0.5:
                ids.append(2020)
            ids.append(2029)
        if r.random() < 0.1:
            ids.append(2031)
    entries = [[e, seed(r), 0, 0] for e in ids]
    valid = r.random() < 0.97
    names = [f"Master {chr(65 + i)}" for i in range(nm)]
    axn = ["Weight", "Width", "Optical Size", "Serif"]
    if r.random() < 0.3:
        axn = r.sample([*axn, "Slant", "grade", "X", "Optical size"], 4)
    a = m = 0
    for e in entries:
        if e[0] == 1135:
            e.append(r.choice((1000, 1000, 2048)))
        elif e[0] == 1513:
            e.append(axes)
        elif e[0] == 1514:
            e.append(axn[a])
            a += 1
        elif e[0] == 1504:
            e.append(names[m])
            m += 1
        elif e[0] == FONT_STYLE and valid:
            e.append(sum(2**b for b in r.sample((1, 2, 3, 4, 7, 8, 9), r.choice((0, 0, 1, 3))))
                     + r.choice((0, 1, 32, 33, 64)))
        elif e[0] in (1530, 1531, 1532, 1533) and valid:
            e.append(2 * r.randint(0, 7 if e[0] in (1530, 1532) else 5))
    noisy = r.choice((0.0, 0.3))
    for e in entries:
        e[2] = int(r.random() < noisy)
    entries.append([2, 0, 0, 0, ""])
    return {
        "platform": r.choice(("macos", "windows")), "nm": nm, "axes": axes, "export": True,
        "curves": curves, "vseed": seed(r), "entries": entries, "kern": kern, "valid": valid,
    }
