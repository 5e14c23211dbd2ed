"""
Generators and encoders for the content of every entry type, built on wire.W only.

gen(rng, ctx, big) makes content (the decoded form, the model), enc(w, model, ctx)
writes it. Content is what the parser is expected to show; w decides whether it is
written canonically or in a legal variation.
"""

from functools import lru_cache
from math import atan2, degrees
from random import Random

from fontTools.ttLib.tables.ttProgram import Program

from .wire import W

NAMES = (
    ".notdef space A B C D E F G H a b c d e f g h acute grave dieresis Aacute "
    "agrave adieresis one two three period comma f_i uni20AC u1F600 hyphen zero"
).split()
WORDS = [
    "", "Regular", "Bold", "Test Font", "Müller & Söhne", "a", "x" * 40, "“quoted”",
    "tab\tin", "line\nbreak", "€ 12", "1.000;TEST", "ÿ", "Copyright © 2020", "~!@#$%",
    " lead", "trail ", "end\n",
]
FEA = [
    "feature kern {", "  pos @_A @_B 10;", "  sub a by b;", "} kern;", "", "# comment ü",
    "feature liga {", "\tsub f i by f_i;", "} liga;", "lookup one useExtension {",
    "  enum pos @_A V -20; # x", "@x = [a b c];",
    "feature ss01 { # x", "} ss01;", "# feature c2sc {", "include(../x y.fea);", "@_A = [a b' c];",
]


class Ctx:
    """What the content of one entry may refer to in the rest of the font."""

    def __init__(self, platform="macos", nm=1, axes=0, export=False):
        self.platform = platform
        self.nm = nm
        self.axes = axes
        self.export = export
        self.valid = export  # font info that a UFO can have
        self.glyphs = 0  # number of glyph entries in the font
        self.gi = -1  # index of the current glyph
        self.cur = None  # content of the current glyph
        self.gdef_anchors = None
        self.stems = (0, 0)
        self.zones = (0, 0)
        self.simple_curves = None  # "t1" or "tt" in export fonts
        self.kern = False  # Many groups and kerning pairs
        self.hints = False  # Many hints, names that need care
        self.sizes = {}  # glyph index: number of nodes, None for composites
        self.axis_i = 0
        self.master_i = 0
        self.map_counts = None


def num(r: Random, lo=-(2**31), hi=2**31 - 1) -> int:
    c = r.random()
    if c < 0.55:
        v = r.randint(-120, 1000)
    elif c < 0.8:
        v = r.choice(
            (0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, 619,
             620, 875, 876, -363, -364, -619, -620, -875, -876, 255, 256, 32767, -32768,
             65535, 65536)
        )
    elif c < 0.9:
        v = r.randint(-40000, 40000)
    else:
        v = r.choice((lo, hi, lo + 1, hi - 1, r.randint(lo, hi)))
    return min(max(v, lo), hi)


def coord(r: Random) -> int:
    c = r.random()
    if c < 0.7:
        return r.randint(-200, 1000)
    if c < 0.95:
        return r.choice((0, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 2000, -1500))
    return r.randint(-30000, 30000)


def text(r: Random, n=None) -> str:
    s = r.choice(WORDS)
    if n is not None:
        s = (s + "abc").replace("\0", "")[:n]
    elif r.random() < 0.3:
        s += " " + r.choice(WORDS) + str(r.randint(0, 999))
        if r.random() < 0.02:
            s = "".join(s + str(i) for i in range(r.choice((12, 30, 120))))
    return s


def cnt(r, a, b):
    """A number of items, sometimes a large one."""
    n = r.randint(a, b)
    c = r.random()
    if c < 0.027:
        n += r.choice((3, 5, 9, 20))
    elif c < 0.03:
        n += r.choice((60, 107, 108, 130, 255, 256, 300, 1135))
    return n


def u(r: Random, hi) -> int:
    return num(r, 0, hi)


def dbl(r: Random) -> float:
    c = r.random()
    if c < 0.3:
        return float(r.randint(-1000, 1000))
    if c < 0.6:
        return r.choice((0.0, 1.0, -1.0, 0.001, 0.039625, 0.5, -12.5, 1e-7, 1e300, 0.1))
    return r.uniform(-1000, 1000)


# ---------------------------------------------------------------- simple entries


def g_hex(r, c, big):
    n = r.choice((0, 0, 1, 2, 4, 7, 20)) if not big else 65530 + r.randint(0, 12)
    return r.randbytes(n).hex()


SNIPPETS = (b"\x2e", b"\xb0\x05", b"\xb1\x01\x02", b"\xb8\xff\x00", b"\x40\x03\x01\x02\x03",
            b"\x41\x01\x12\x34", b"\x2c\x2d", b"\x60\x20\x21", b"\xe3", b"\x4f", b"\x2f")


def g_ttprog(r, c, big):
    """cvt values and TrueType programs: complete ones where they are exported"""
    if not c.export:
        return g_hex(r, c, big)
    if big:
        return (b"\x2e" * (65530 + 2 * r.randint(0, 6))).hex()
    code = b"".join(r.choice(SNIPPETS) for _ in range(cnt(r, 0, 8)))
    return (code + b"\x4f" * (len(code) % 2)).hex()


def e_hex(w, m, c):
    w.raw(bytes.fromhex(m))


def g_str(r, c, big):
    if big:
        return "x" * (65530 + r.randint(0, 12))
    return text(r)


def e_str(w, m, c):
    w.s(m)
    if w.flip():
        w.raw(bytes(w.noise.randint(1, 3)))


def g_vendor(r, c, big):
    return text(r, r.randint(0, 4)).strip("\0")


def e_vendor(w, m, c):
    e = m.encode("cp1252")
    if w.noise is None or w.flip(0.5):
        e += bytes(max(0, 4 - len(e)))
    w.raw(e)


def e_u16(w, m, c):
    w.u16(m)


def e_s16(w, m, c):
    w.s16(m)


def e_s32(w, m, c):
    w.s32(m)


def e_dbl(w, m, c):
    w.dbl(m)


def g_u16(r, c, big):
    return u(r, 65535)


def g_axcount(r, c, big):
    return r.randint(0, 4)


def g_s16(r, c, big):
    return num(r, -32768, 32767)


def g_s32(r, c, big):
    return num(r)


def g_dbl(r, c, big):
    return dbl(r)


def g_dbls(r, c, big):
    return [dbl(r) for _ in range(r.choice((0, 1, c.nm, c.nm)))]


def e_dbls(w, m, c):
    for v in m:
        w.dbl(v)


def g_xuid(r, c, big):
    n = r.randint(0, 6) if not big else 16383 + r.randint(0, 2)
    return [u(r, 2**32 - 1) for _ in range(n)]


def e_xuid(w, m, c):
    for v in m:
        w.u32(v)


def g_panose(r, c, big):
    return [r.randint(0, 9) if c.export else r.randint(-128, 127) for _ in range(10)]


def e_panose(w, m, c):
    for v in m:
        w.s8(v)


def g_uranges(r, c, big):
    return sorted(r.sample(range(128), r.randint(0, 12)))


def e_uranges(w, m, c):
    w.raw(sum(2**b for b in m).to_bytes(16, "little"))


def g_encoding(r, c, big):
    return (u(r, 65535), r.choice(NAMES) + str(r.randint(0, 99)))


def e_encoding(w, m, c):
    w.u16(m[0])
    w.s(m[1])


def g_flversion(r, c, big):
    return {
        "platform": c.platform,
        "version": tuple(r.choice(((5, 2, 2, 128), (5, 0, 4, 255), (4, 6, 0, 1), (3, 0, 0, 0)))),
        "owner": u(r, 2**31 - 1),
    }


def e_flversion(w, m, c):
    parts = []

    def p(key, v, **kw):
        x = W(w.noise, w.p)
        x.u8(key)
        x.val(v, **kw)
        parts.append(x.get())

    p(1, {"windows": 0, "macos": 1}[m["platform"]])
    p(2, int.from_bytes(bytes(m["version"]), "big"), signed=True, long=True)
    p(3, m["owner"])
    if w.flip():
        w.noise.shuffle(parts)
    for x in parts:
        w.raw(x)
    w.u8(0)


def g_mapping(r, c, big):
    mode = r.choice((0, 1, 3, 0, 1, 3, 2, 7))
    return {
        "mapping_mode": {0: "names_or_index", 1: "unicode_ranges", 3: "codepages"}.get(
            mode, str(mode)
        ),
        "m2": num(r),
        "m3": num(r),
        "mapping_id": num(r),
    }


def e_mapping(w, m, c):
    mode = {"names_or_index": 0, "unicode_ranges": 1, "codepages": 3}
    mm = m["mapping_mode"]
    kv = [
        (1, mode[mm] if mm in mode else int(mm)), (2, m["m2"]), (3, m["m3"]),
        (4, m["mapping_id"]),
    ]
    if w.flip():
        w.noise.shuffle(kv)
    for k, v in kv:
        w.u8(k)
        w.val(v)
    w.u8(0)


def g_kcf(r, c, big):
    if c.export:
        return {
            f"_cls{i}": (r.choice((1024, 2048, 3072, 3072 if c.kern else 0)) + r.randint(0, 9), r.randint(0, 2000))
            for i in range(4 if c.kern else r.randint(0, 4))
        }
    return {
        f"_{text(r, 6)}{i}": (num(r), num(r))
        for i in range(cnt(r, 0, 4))
    }


def g_mcf(r, c, big):
    return {
        f"_{text(r, 6)}{i}": tuple(num(r) for _ in range(3))
        for i in range(cnt(r, 0, 4))
    }


def e_cf(w, m, c):
    w.val(len(m))
    for k, v in m.items():
        w.lens(k)
        for x in v:
            w.val(x)


def g_vals(r, c, big):
    n = c.nm if not big else 13107 + r.randint(0, 2)
    if big:
        return [num(r) or 1 for _ in range(n)]
    return [num(r) for _ in range(n)]


def e_vals(w, m, c):
    for v in m:
        w.val(v)


def g_valsc(r, c, big):
    return [num(r) for _ in range(cnt(r, 0, 6))]


def e_valsc(w, m, c):
    w.val(len(m))
    e_vals(w, m, c)


def g_ps_global(r, c, big):
    d = {}
    if r.random() < 0.5:
        d["generate_flex"] = 1
    d["other"] = sorted(r.sample(range(1, 16), r.randint(0, 3)))
    return d


def e_ps_global(w, m, c):
    w.u16(sum(2**b for b in m["other"]) + m.get("generate_flex", 0))


PSG = (("hint_replacement", 29), ("horizontal_3_stem", 30), ("vertical_3_stem", 31))


def g_ps_glyph(r, c, big):
    d = {k: 1 for k, _ in PSG if r.random() < 0.4}
    d["other"] = sorted(r.sample(range(0, 29), r.randint(0, 3)))
    return d


def e_ps_glyph(w, m, c):
    w.u32(sum(2**b for b in m["other"]) + sum(2**b for k, b in PSG if k in m))


def g_psinfo(r, c, big):
    s = lambda: num(r)  # noqa: E731
    p = lambda: u(r, 2**32 - 1)  # noqa: E731
    if c.export:
        s = lambda: r.randint(-250, 1000)  # noqa: E731
        p = lambda: r.randint(0, 200)  # noqa: E731
    return {
        "font_matrix": tuple(dbl(r) for _ in range(6)),
        "force_bold": s(),
        "blue_values": sorted(s() for _ in range(14)),
        "other_blues": sorted(s() for _ in range(10)),
        "family_blues": sorted(s() for _ in range(14)),
        "family_other_blues": sorted(s() for _ in range(10)),
        "blue_scale": dbl(r),
        "blue_shift": p(),
        "blue_fuzz": p(),
        "std_hw": p(),
        "std_vw": p(),
        "stem_snap_h": [p() for _ in range(12)],
        "stem_snap_v": [p() for _ in range(12)],
        "bounding_box": {
            k: num(r, -32768, 32767) for k in ("xMin", "yMin", "xMax", "yMax")
        },
        "adv_width_min": s(),
        "adv_width_max": s(),
        "adv_width_avg": s(),
        "ascender": s(),
        "descender": s(),
        "x_height": s(),
        "cap_height": s(),
    }


def e_psinfo(w, m, c):
    for v in m["font_matrix"]:
        w.dbl(v)
    w.s32(m["force_bold"])
    for k in ("blue_values", "other_blues", "family_blues", "family_other_blues"):
        for v in m[k]:
            w.s32(v)
    w.dbl(m["blue_scale"])
    for k in ("blue_shift", "blue_fuzz", "std_hw", "std_vw"):
        w.u32(m[k])
    for k in ("stem_snap_h", "stem_snap_v"):
        for v in m[k]:
            w.u32(v)
    for k in ("xMin", "yMin", "xMax", "yMax"):
        w.s16(m["bounding_box"][k])
    for k in ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender",
              "x_height", "cap_height"):
        w.s32(m[k])


def g_gasp(r, c, big):
    m = [{"maxPpem": u(r, 65535), "flags": r.randint(0, 15)} for _ in range(cnt(r, 0, 4))]
    if c.valid:
        m = sorted({x["maxPpem"]: x for x in m}.values(), key=lambda x: x["maxPpem"])
    return m


def e_gasp(w, m, c):
    for x in m:
        w.u16(x["maxPpem"])
        w.u16(x["flags"])


TTI = {
    0x33: "max_zones", 0x34: "max_twilight_points", 0x35: "max_storage",
    0x36: "max_function_defs", 0x37: "max_instruction_defs", 0x38: "max_stack_elements",
    0x39: "head_flags", 0x3A: "head_units_per_em", 0x3B: "head_mac_style",
    0x3C: "head_lowest_rec_ppem", 0x56: "head_creation", 0x57: "head_creation2",
    0x3D: "head_font_direction_hint", 0x3E: "os2_us_weight_class",
    0x3F: "os2_us_width_class", 0x40: "os2_fs_type", 0x41: "os2_y_subscript_x_size",
    0x42: "os2_y_subscript_y_size", 0x43: "os2_y_subscript_x_offset",
    0x44: "os2_y_subscript_y_offset", 0x45: "os2_y_superscript_x_size",
    0x46: "os2_y_superscript_y_size", 0x47: "os2_y_superscript_x_offset",
    0x48: "os2_y_superscript_y_offset", 0x49: "os2_y_strikeout_size",
    0x4A: "os2_y_strikeout_position", 0x4B: "os2_s_family_class",
    0x4C: "OpenTypeOS2Panose", 0x4D: "os2_s_typo_ascender", 0x4E: "os2_s_typo_descender",
    0x4F: "os2_s_typo_line_gap", 0x50: "os2_fs_selection", 0x51: "os2_us_win_ascent",
    0x52: "os2_us_win_descent", 0x5C: "Average Width", 0x53: "Hdmx PPMs 1",
    0x58: "Hdmx PPMs 2", 0x54: "Codepages",
}
TTI_ORDER = list(TTI)  # the order in which a save writes them
TTI_OPT = {0: "use_custom_tt_values", 1: "create_vdmx", 2: "add_null_cr_space"}


def g_ttinfo(r, c, big):
    m = {}
    full = r.random() < 0.5 or c.export
    for k, name in TTI.items():
        if k == 0x39:
            m[name] = {
                "flags": sorted(r.sample(range(15 if c.valid else 16), r.randint(0, 4))),
                "options": [
                    TTI_OPT.get(b, str(b))
                    for b in sorted(r.sample(range(3 if c.export else 16), r.randint(0, 3)))
                ],
            }
        elif k == 0x4C:
            m[name] = [r.randint(0, 9 if c.export else 255) for _ in range(10)]
        elif k in (0x53, 0x58):
            if full or r.random() < 0.5:
                m[name] = [r.randint(0, 255) for _ in range(cnt(r, 0, 5))]
        elif k == 0x54:
            m[name] = {
                "os2_ul_code_page_range1": u(r, 2**32 - 1),
                "os2_ul_code_page_range2": u(r, 2**32 - 1),
            }
        elif k in range(0x33, 0x39) or full or r.random() < 0.7:
            if c.export:
                lo, hi = {0x3F: (1, 9), 0x3E: (1, 999), 0x40: (0, 15), 0x50: (0, 127),
                          0x4B: (0, 3000), 0x56: (0, 2**31 - 1), 0x4E: (-400, 0)}.get(k, (0, 900))
                m[name] = r.randint(lo, hi)
                if k == 0x4B and c.valid:
                    m[name] = r.randint(0, 14) * 256 + r.randint(0, 15)
            else:
                m[name] = num(r)
    return m


def e_ttinfo(w, m, c):
    parts = []
    for k in TTI_ORDER:
        name = TTI[k]
        if name not in m:
            continue
        v = m[name]
        x = W(w.noise, w.p)
        x.u8(k)
        if k == 0x39:
            rev = {n: b for b, n in TTI_OPT.items()}
            val = sum(2**b for b in v["flags"]) + sum(
                2 ** (16 + (rev[o] if o in rev else int(o))) for o in v["options"]
            )
            if val > 0x7FFFFFFF:
                val -= 0x100000000
            x.val(val)
        elif k == 0x4C:
            for b in v:
                x.u8(b)
        elif k in (0x53, 0x58):
            x.val(len(v))
            for b in v:
                x.u8(b)
        elif k == 0x54:
            x.uval(v["os2_ul_code_page_range1"])
            x.uval(v["os2_ul_code_page_range2"])
        else:
            x.val(v)
        parts.append(x.get())
    if w.flip(0.5):
        w.noise.shuffle(parts)
    for p in parts:
        w.raw(p)
    w.u8(0x32)


def g_vdmx(r, c, big):
    return [
        {"pelHeight": num(r), "max": num(r), "min": num(r)} for _ in range(cnt(r, 0, 4))
    ]


def e_vdmx(w, m, c):
    w.val(len(m))
    for x in m:
        w.val(x["pelHeight"])
        w.val(x["max"])
        w.val(x["min"])


DIRS = ("ttStemsV", "ttStemsH")


def _ppm(r, c):
    if c.hints:
        return r.randint(1, 12)
    return r.randint(1, 200) if c.export else num(r)


TT_NAMES = ("", "X", "h00", "v00", "h01", "X#01", "X#1", "Größe", "a & <b>", "\"q\" 'r'", "lsb")


def g_stems(r, c, big):
    m = {}
    for i, d in enumerate(DIRS):
        m[d] = [
            {
                "value": r.randint(10, 200) if c.export else num(r),
                "name": r.choice(TT_NAMES) if c.hints and r.random() < 0.6
                else f"{'XY'[i]}: {r.randint(1, 99)}.{j}",
                "round": {6: _ppm(r, c)},
            }
            for j in range(cnt(r, 1 if c.export else 0, 3))
        ]
    return m


def e_stems(w, m, c):
    for d in DIRS:
        w.val(len(m[d]))
        for s in m[d]:
            w.val(s["value"])
            n = s["name"].encode("cp1252")
            w.u8(len(n))
            w.raw(n)
            w.val(s["round"][6])


def _g_ppems(ks):
    def g(r, c, big):
        return {
            d: [{"stem": j, "round": {k: _ppm(r, c) for k in ks}} for j in range(c.stems[i])]
            for i, d in enumerate(DIRS)
        }

    return g


def _e_ppems(ks, count=True):
    def e(w, m, c):
        for d in DIRS:
            if count:
                w.val(len(m[d]))
            for s in m[d]:
                for k in ks:
                    w.val(s["round"][k])

    return e


def g_zones(r, c, big):
    return {
        z: [
            {
                "position": r.randint(-300, 900) if c.export else num(r),
                "value": r.randint(0, 40) if c.export else num(r),
                "name": r.choice(TT_NAMES) if c.hints and r.random() < 0.6
                else f"{z[-1]}{r.randint(0, 99)}_{j}",
            }
            for j in range(cnt(r, 0, 3))
        ]
        for z in ("ttZonesT", "ttZonesB")
    }


def e_zones(w, m, c):
    for z in ("ttZonesT", "ttZonesB"):
        w.val(len(m[z]))
        for x in m[z]:
            w.val(x["position"])
            w.val(x["value"])
            w.lens(x["name"])


def g_zdeltas(r, c, big):
    n = sum(c.zones)
    d = {}
    for _ in range(cnt(r, 0, 4)):
        if c.export:
            if not n:
                break
            d.setdefault(r.randrange(n), {})[r.randint(8, 60)] = r.randint(-8, 8) or 1
        else:
            d.setdefault(num(r), {})[num(r)] = num(r)
    return d


def e_zdeltas(w, m, c):
    flat = sorted((z, p, s) for z, q in m.items() for p, s in q.items())
    if w.flip(0.5):
        w.noise.shuffle(flat)
    w.val(len(flat))
    for t in flat:
        for v in t:
            w.val(v)


@lru_cache(None)
def _mac(code):
    return bytes((code,)).decode("macroman")


def g_names(r, c, big):
    out = []
    for _ in range(cnt(r, 0, 4)):
        plat = r.choice((1, 3, 3))
        enc = r.choice((0, 0, 1)) if plat == 1 else r.choice((1, 10))
        if plat == 1 and enc == 0:
            s = "".join(_mac(r.randint(32, 255)) for _ in range(cnt(r, 0, 12)))
        else:
            s = "".join(
                chr(r.choice((65, 97, 0xE4, 0x3B1, 0x4E00, 0x20AC, 0xFFFD, 0x1F600, r.randint(32, 0xD7FF))))
                for _ in range(cnt(r, 0, 12))
            )
        out.append((r.randint(0, 30), plat, enc, r.choice((0, 1033, 1031)), s))
    return out


def e_names(w, m, c):
    w.val(len(m))
    for nid, plat, enc, lang, s in m:
        for v in (nid, plat, enc, lang, len(s)):
            w.val(v)
        for ch in s:
            if plat == 1 and enc == 0:
                w.val(ch.encode("macroman")[0])
            else:
                w.val(ord(ch))


def g_cmap(r, c, big):
    return [
        {
            "language_id": num(r), "platform_id": num(r), "encoding_id": num(r),
            "format": num(r), "option": num(r), "page_name": text(r),
        }
        for _ in range(cnt(r, 0, 3))
    ]


def e_cmap(w, m, c):
    w.val(len(m))
    for x in m:
        for k in ("language_id", "platform_id", "encoding_id", "format", "option"):
            w.val(x[k])
        w.lens(x["page_name"])


def g_pclt(r, c, big):
    return {
        "font_number": u(r, 2**32 - 1), "pitch": num(r), "x_height": num(r),
        "style": num(r), "type_family": num(r), "cap_height": num(r),
        "symbol_set": num(r), "typeface": (text(r, 16) + " " * 16)[:16],
        "character_complement": [r.randint(0, 255) for _ in range(8)],
        "file_name": (text(r, 6) + "\0" * 6)[:6],
        "stroke_weight": r.randint(-128, 127), "width_type": r.randint(-128, 127),
        "serif_style": r.randint(0, 255),
    }


def e_pclt(w, m, c):
    w.uval(m["font_number"])
    for k in ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set"):
        w.val(m[k])
    w.s(m["typeface"])
    for v in m["character_complement"]:
        w.u8(v)
    w.s(m["file_name"])
    w.s8(m["stroke_weight"])
    w.s8(m["width_type"])
    w.u8(m["serif_style"])


def g_table(r, c, big):
    n = r.randint(0, 12) if not big else 65524 + r.randint(0, 12)
    return {"tag": r.choice(("TSIV", "cvt ", "GPOS", "abcd")), "data": r.randbytes(n).hex()}


def e_table(w, m, c):
    w.s(m["tag"])
    w.raw(bytes.fromhex(m["data"]))


def g_fea(r, c, big):
    lines = []
    for _ in range(r.randint(0, 8) if not big else 4000):
        s = r.choice(FEA) if not big else "  sub aaaaaaaa by b; #" + str(r.randint(0, 9))
        if r.random() < 0.08:
            s += r.choice((" ", "\t", "  ", " # \xe4\u20ac ", "\\", "#"))
        if not s.strip() and (not lines or not lines[-1].strip() and len(lines) > 1 and not lines[-2].strip()):
            continue
        lines.append(s)
    while lines and lines[-1] == "":
        lines.pop()
    return lines + [""]


def e_fea(w, m, c):
    eol = "\n"
    if w.flip(0.4):
        eol = w.noise.choice(("\r\n", "\r"))
    s = eol.join(m)
    if w.flip(0.3) and s.endswith(eol):
        s = s[: -len(eol)]
    w.s(s)


def g_classdef(r, c, big):
    if c.export and c.glyphs:
        names = [gname(i) for i in range(c.glyphs)]
        k = r.sample(names, min(len(names), r.randint(1, 5)))
        if r.random() < (0.9 if c.kern else 0.5):
            i = r.randrange(len(k)) if c.kern else 0
            k[i] += "'"
        if r.random() < 0.3:
            for n in r.sample(("missing", "X.alt", "foo", "g2"), r.randint(1, 2)):
                k.insert(r.randint(0, len(k)), n)
        return f"{r.choice(('_', '_', '', '.') if not c.kern else '_')}{r.choice(('cls', 'cls', 'cls', 'Cls'))}{r.randint(0, 3)}: " + " ".join(k)
    return f"{r.choice(('_', '', '.mtrx'))}class{r.randint(0, 99)}: a b' c"


# ---------------------------------------------------------------- MM data


def g_aniso(r, c, big):
    return [
        [(num(r), num(r)) for _ in range(cnt(r, 1, 3))] for _ in range(cnt(r, 0, 4))
    ]


def e_aniso(w, m, c):
    for a in m:
        w.val(len(a))
        for s, t in a:
            w.val(s)
            w.val(t)


def g_axmapc(r, c, big):
    if c.export:
        return [r.choice((2, 2, 3, 8, 10)) if i < c.axes else 0 for i in range(4)]
    return [u(r, 2**32 - 1) for _ in range(4)]


def e_axmapc(w, m, c):
    for v in m:
        w.u32(v)


def g_axmap(r, c, big):
    if c.export:
        out = []
        counts = c.map_counts or [0, 0, 0, 0]
        for i in range(c.axes):
            n = counts[i]
            for j in range(10):
                if j < n:
                    out.append((100.0 * j + r.randint(0, 50), j / max(n - 1, 1)))
                else:
                    out.append((0.0, 0.0))
            if n and r.random() < 0.25:
                part = out[10 * i : 10 * i + n]
                r.shuffle(part)
                out[10 * i : 10 * i + n] = part
        return out
    return [(dbl(r), dbl(r)) for _ in range(cnt(r, 0, 3))]


def e_axmap(w, m, c):
    for a, b in m:
        w.dbl(a)
        w.dbl(b)


def g_mloc(r, c, big):
    if c.export:
        i = c.master_i
        return (i + 1, tuple(float(i >> a & 1) if a < c.axes else 0.0 for a in range(4)))
    return (u(r, 2**32 - 1), tuple(dbl(r) for _ in range(4)))


def e_mloc(w, m, c):
    w.u32(m[0])
    for v in m[1]:
        w.dbl(v)


def g_pinst(r, c, big):
    return [
        {
            "name": text(r) + f" {i}",
            "values": tuple(
                (r.randint(0, 900) * (10000 if c.export else 1) if c.export else num(r)) / 10000
                for _ in range(4)
            ),
        }
        for i in range(cnt(r, 0, 3))
    ]


def e_pinst(w, m, c):
    w.val(len(m))
    for x in m:
        w.lens(x["name"])
        for v in x["values"]:
            w.val(round(v * 10000))


def g_kernpair(r, c, big):
    return {
        "l": u(r, 2**32 - 1), "r": u(r, 2**32 - 1),
        "values": [num(r, -32768, 32767) for _ in range(c.nm)],
    }


def e_kernpair(w, m, c):
    w.u32(m["l"])
    w.u32(m["r"])
    for v in m["values"]:
        w.s16(v)


# ---------------------------------------------------------------- guides, masks


def _guides(r, c, n=None):
    def one():
        # Either orthogonal or with some slope
        v = 0 if r.random() < 0.4 else r.choice((num(r, -(10**9), 10**9), r.randint(-20000, 20000)))
        return {"pos": coord(r), "angle": degrees(atan2(v, 10000)), "_raw": v}

    return {
        d: [[one() for _ in range(c.nm)] for _ in range(cnt(r, 0, 2))] for d in "hv"
    }


def strip_raw(x):
    """Remove the helper values from a model."""
    if isinstance(x, dict):
        return {k: strip_raw(v) for k, v in x.items() if k != "_raw"}
    if isinstance(x, list):
        return [strip_raw(v) for v in x]
    if isinstance(x, tuple):
        return tuple(strip_raw(v) for v in x)
    return x


def _slope(g):
    if "_raw" in g:
        return g["_raw"]
    from math import radians, tan

    return round(tan(radians(g["angle"])) * 10000)


def g_guides(r, c, big):
    return _guides(r, c)


def e_guides(w, m, c):
    for d in "hv":
        w.val(len(m[d]))
        for g in m[d]:
            for x in g:
                w.val(x["pos"])
                w.val(_slope(x))


def g_gprops(r, c, big):
    m = {"h": [], "v": []}
    for d in "hv":
        for i in range(cnt(r, 0, 3)):
            g = {"index": i + 1 if r.random() < 0.8 else r.randint(1, 3000)}
            if r.random() < 0.6:
                g["color"] = "#%06x" % r.choice((0, 0xFF0000, 0xFF, r.randrange(2**24)))
            if r.random() < 0.6:
                g["name"] = text(r) + "g"
            m[d].append(g)
    return m


def e_gprops(w, m, c):
    for d in "hv":
        for g in m[d]:
            w.val(g["index"])
            if "color" in g:
                x = g["color"]
                v = int(x[5:7] + x[3:5] + x[1:3], 16)
                if w.flip():
                    w.val(v)
                else:
                    w.val(v, long=True, signed=False)
            else:
                w.val(-1)
            w.lens(g.get("name", ""))
        w.val(0)


def nodes(r, c, n=None, quad=None, wild_types=False):
    """Outlines, the same structure in all masters."""
    out = []
    pos = [[0, 0] for _ in range(c.nm)]

    def pt():
        res = []
        base = (coord(r), coord(r))
        for m in range(c.nm):
            if m == 0 or r.random() < 0.3:
                p = base
            else:
                p = (base[0] + r.randint(-60, 60), base[1] + r.randint(-60, 60))
            res.append(p)
        return res

    if wild_types:
        for _ in range(cnt(r, 0, 8)):
            t = r.choice(("move", "line", "curve", "qcurve"))
            pts = [pt() for _ in range(3 if t == "curve" else 1)]
            out.append(
                {
                    "type": t, "flags": r.choice((0, 0, 1, 3, 4, 8, 15)),
                    "points": [[p[m] for p in pts] for m in range(c.nm)],
                }
            )
        return out
    for _ in range(r.choice((0, 1, 1, 2)) if n is None else n):
        def add(t, npts=1, flags=0):
            pts = [pt() for _ in range(npts)]
            out.append(
                {"type": t, "flags": flags, "points": [[p[m] for p in pts] for m in range(c.nm)]}
            )

        add("move", 1, 8 if r.random() < 0.15 else 0)
        first = out[-1]
        k = r.randint(2, 5)
        if r.random() < 0.12:
            k = r.choice((0, 1, 1, 9, 9, 9)) if r.random() < 0.97 else r.choice((60, 130, 260))
        for i in range(k):
            ch = r.random()
            if ch < 0.5:
                add("line", 1, r.choice((0, 0, 3)))
            elif quad:
                for _ in range(cnt(r, 1, 3)):
                    add("qcurve")
                add("line", 1)
            elif quad is False:
                add("curve", 3, r.choice((0, 0, 3)))
            else:
                add("line")
        if k and r.random() < 0.25:
            # The last point lies on the first one
            some = r.random() < 0.2
            if r.random() < 0.25:
                first["flags"] = 8
            for p, q in zip(out[-1]["points"], first["points"]):
                if not some or r.random() < 0.5:
                    p[0] = q[0]
        if k > 1 and r.random() < 0.05:
            # A segment without length
            i = r.randrange(len(out) - k, len(out))
            for p, q in zip(out[i]["points"], out[i - 1]["points"]):
                p[0] = q[0]
    del pos
    return out


def e_nodes(w, ns, nm, count=None):
    """num_masters, the number of values, and the nodes"""
    w.val(nm)
    types = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}
    body = W(w.noise, w.p)
    ref = [[0, 0] for _ in range(nm)]
    nv = 0
    for n in ns:
        body.u8(n["flags"] * 16 + types[n["type"]])
        nv += 1
        for j in range(len(n["points"][0])):
            for m in range(nm):
                x, y = n["points"][m][j]
                body.val(x - ref[m][0])
                body.val(y - ref[m][1])
                nv += 2
                ref[m] = [x, y]
    w.val(2 * nv if not w.flip(0.1) else w.noise.randint(0, 500))
    w.val(len(ns))
    w.raw(body.get())


def g_gmask(r, c, big):
    return {"num_masters": c.nm, "nodes": nodes(r, c, wild_types=not c.export)}


def e_gmask(w, m, c):
    e_nodes(w, m["nodes"], m["num_masters"])


def g_mask(r, c, big):
    return {
        "weight_vector": [r.choice((0.0, 1.0, r.randint(0, 10**8) / 100_000_000)) for _ in range(c.nm)],
        **g_gmask(r, c, big),
    }


def e_mask(w, m, c):
    w.val(len(m["weight_vector"]))
    for v in m["weight_vector"]:
        w.val(round(v * 100_000_000))
    e_gmask(w, m, c)


def g_pair16(r, c, big):
    return (num(r, -32768, 32767), num(r, -32768, 32767))


def e_pair16(w, m, c):
    w.s16(m[0])
    w.s16(m[1])


def g_mmm(r, c, big):
    return [(num(r), num(r)) for _ in range(c.nm - 1)]


def e_mmm(w, m, c):
    for x, y in m:
        w.val(x)
        w.val(y)


def g_origin(r, c, big):
    return {"x": num(r, -32768, 32767), "y": num(r, -32768, 32767)}


def e_origin(w, m, c):
    w.s16(m["x"])
    w.s16(m["y"])


def g_sketch(r, c, big):
    return [(num(r), num(r), num(r)) for _ in range(cnt(r, 0, 4))]


def e_sketch(w, m, c):
    w.uval(len(m))
    for t in m:
        for v in t:
            w.val(v)


def g_unicodes(r, c, big):
    if c.export:
        return [0x41 + c.gi % 4000] + ([0x3000 + c.gi] if r.random() < 0.2 else [])
    return [r.randint(0, 65535) for _ in range(r.randint(0, 3) if not big else 32765 + r.randint(0, 6))]


def e_unicodes(w, m, c):
    for v in m:
        w.u16(v)


def g_unicodes32(r, c, big):
    if c.export:
        return [0x1F000 + c.gi]
    return [u(r, 0x10FFFF) for _ in range(cnt(r, 0, 3))]


def e_unicodes32(w, m, c):
    for v in m:
        w.u32(v)


def g_anchsup(r, c, big):
    n = c.gdef_anchors if c.export and c.gdef_anchors is not None else r.randint(0, 3)
    return [{"hue": num(r), "data": num(r)} for _ in range(n)]


def e_anchsup(w, m, c):
    w.val(len(m))
    for a in m:
        w.val(a["hue"])
        w.val(a["data"])


def g_anchmm(r, c, big):
    n = c.gdef_anchors if c.export and c.gdef_anchors is not None else r.randint(0, 3)
    return [
        {"x": [coord(r) for _ in range(c.nm)], "y": [coord(r) for _ in range(c.nm)]}
        for _ in range(n)
    ]


def e_anchmm(w, m, c):
    w.val(len(m))
    w.val(c.nm)
    for a in m:
        for i in range(c.nm):
            w.val(a["x"][i])
            w.val(a["y"][i])


GDEF = ("unassigned", "base", "ligature", "mark", "component")


def g_gdef(r, c, big):
    m = {}
    if k := r.randint(0, 4):
        m["glyph_class"] = GDEF[k]
    anchors = []
    for i in range(cnt(r, 0, 3)):
        a = {"x": coord(r), "y": coord(r)}
        if c.export or r.random() < 0.8:
            a["name"] = f"{r.choice(('top', '_top', 'bottom', 'ö'))}{i}"
        anchors.append(a)
    if anchors:
        m["anchors"] = anchors
    n = cnt(r, 0, 2)
    if n:
        m["carets"] = [(num(r), num(r)) for _ in range(n)]
    n = cnt(r, 0, 2)
    if n:
        m["ot_classes"] = [num(r) for _ in range(n)]
    return m


def e_gdef(w, m, c):
    w.val(GDEF.index(m.get("glyph_class", "unassigned")))
    w.val(len(m.get("anchors", ())))
    for a in m.get("anchors", ()):
        w.lens(a.get("name", ""))
        w.val(a["x"])
        w.val(-1)
        w.val(a["y"])
        w.val(-1)
    w.val(len(m.get("carets", ())))
    for p, i in m.get("carets", ()):
        w.val(p)
        w.val(i)
    w.val(len(m.get("ot_classes", ())))
    for v in m.get("ot_classes", ()):
        w.val(v)


def g_links(r, c, big):
    n = len((c.cur or {}).get("nodes", ()))
    if c.export:
        def one():
            a = r.randrange(n)
            return (a, r.choice((-1, -2, r.randrange(n))))

        return {d: [one() for _ in range(cnt(r, 0, 2) if n else 0)] for d in "xy"}
    return {d: [(num(r), num(r)) for _ in range(cnt(r, 0, 3))] for d in "xy"}


def e_links(w, m, c):
    for d in "yx":
        w.val(len(m[d]))
        for a, b in m[d]:
            w.val(a)
            w.val(b)


# ---------------------------------------------------------------- bitmaps


def preview(rows, width):
    return [
        "".join("█▉" if b == "1" else " ▕" for v in row for b in f"{v:08b}")[: width * 2]
        for row in rows
    ]


def _bitmap(r, w, h):
    bpr = ((w + 15) // 16) * 2
    kind = r.random()
    data = []
    for _ in range(bpr * h):
        if kind < 0.3:
            data.append(r.randint(0, 255))
        elif kind < 0.5:
            data.append(r.choice((0, 255)))
        else:
            data.append(data[-1] if data and r.random() < 0.85 else r.randint(0, 255))
    return rows_of(data, w)


def rows_of(data, w):
    bpr = ((w + 15) // 16) * 2 or len(data) or 1
    rows = [data[i : i + bpr] for i in range(0, len(data), bpr)]
    return {"data": rows, "preview": preview(rows, w)}


def rle(data, noise=None):
    """[(control, bytes)]"""
    out = []
    if noise is not None:
        i = 0
        while i < len(data):
            run = 1
            while i + run < len(data) and data[i + run] == data[i] and run < 129:
                run += 1
            if run > 1 and noise.random() < 0.6:
                run = noise.randint(2, run)
                out.append((-(run - 1), [data[i]]))
                i += run
            else:
                n = noise.randint(1, min(128, len(data) - i))
                out.append((n - 1, data[i : i + n]))
                i += n
        return out
    i = 0
    lit = []

    def flush():
        for k in range(0, len(lit), 128):
            ch = lit[k : k + 128]
            out.append((len(ch) - 1, ch))
        lit.clear()

    while i < len(data):
        run = 1
        while i + run < len(data) and data[i + run] == data[i]:
            run += 1
        if run > 2:
            flush()
            for _ in range(run // 128):
                out.append((-127, [data[i]]))
            if run % 128:
                out.append((-(run % 128) + 1, [data[i]]))
        else:
            lit += data[i : i + run]
        i += run
    flush()
    return out


def e_bitmap(w, bm, c):
    data = [v for row in bm["data"] for v in row]
    if c.platform == "windows":
        data = [255 - v for v in data]
    chunks = rle(data, w.noise if w.flip(0.5) else None)
    w.val(sum(1 + len(d) for _, d in chunks))
    for k, d in chunks:
        w.s8(k)
        for v in d:
            w.u8(v)


def g_image(r, c, big):
    w, h = r.choice((0, 1, 8, 15, 16, 17, 40)), r.choice((0, 1, 3, 20))
    if big:
        w, h = 2048, 260
    return {
        "origin": (num(r), num(r)), "size_units": (u(r, 2**32 - 1), u(r, 2**32 - 1)),
        "size_pixels": (w, h), "bitmap": _bitmap(r, w, h),
    }


def e_image(w, m, c):
    w.val(m["origin"][0])
    w.val(m["origin"][1])
    for v in (*m["size_units"], *m["size_pixels"]):
        w.uval(v)
    e_bitmap(w, m["bitmap"], c)


def g_bitmaps(r, c, big):
    out = []
    for _ in range(cnt(r, 0, 3)):
        w, h = r.choice((0, 1, 8, 16, 17)), r.choice((0, 1, 3, 9))
        out.append(
            {
                "ppm": u(r, 200), "origin": (num(r), num(r)),
                "adv": (u(r, 2**32 - 1), u(r, 2**32 - 1)), "size_pixels": (w, h),
                "bitmap": _bitmap(r, w, h),
            }
        )
    return out


def e_bitmaps(w, m, c):
    w.uval(len(m))
    for b in m:
        w.uval(b["ppm"])
        w.val(b["origin"][0])
        w.val(b["origin"][1])
        for v in (*b["adv"], *b["size_pixels"]):
            w.uval(v)
        e_bitmap(w, b["bitmap"], c)


# ---------------------------------------------------------------- options


def g_expopt(r, c, big):
    names = {
        0: "use_custom_opentype_export_options", 1: "use_default_opentype_export_options",
        2: "use_custom_cmap_encoding",
    }
    bits = sorted(r.sample(range(16), r.randint(0, 4)))
    return [names.get(b, b) for b in bits]


def e_expopt(w, m, c):
    rev = {
        "use_custom_opentype_export_options": 0, "use_default_opentype_export_options": 1,
        "use_custom_cmap_encoding": 2,
    }
    w.u16(sum(2 ** (rev[b] if b in rev else b) for b in m))


FO = dict(
    enumerate(
        """fit_ascender fit_descender auto_metrics_left auto_metrics_right
auto_metrics_close auto_hinting_min_h_len auto_hinting_min_v_len auto_hinting_min_h_width
auto_hinting_min_v_width auto_hinting_max_h_width auto_hinting_max_v_width
auto_hinting_h_ratio auto_hinting_v_ratio duplicate_place_x paste_place_x
opentype_name_records codepage_for_cmap_1_0 dont_ignore_unicode_indexes head_bbox_savings
autohinting_options export_hinted_truetype_font autohint_unhinted_glyphs
keep_existing_truetype_instructions export_visual_truetype_hints apply_bbox_savings
auto_win_asc_desc add_characters export_embedded_bitmaps
copy_hdmx_data_from_base_to_composite_glyph dont_automatically_reorder_glyphs export_ot
export_volt write_kern_feature t1_terminal t1_pfm t1_afm t1_autohint t1_unicode
optimize_align optimize_reduce t1_encoding ot_write_gdef t1_use_os2 subrize t1_sort
export_kern_table t1_fs_type expand_kern_flags expand_kern_codepage expand_kern_count
decompose""".split(),
        1,
    )
)
FO[114] = "duplicate_place_y"
FO[115] = "paste_place_y"
AH = {
    "generate_triple_hints": 0x100, "generate_delta_instructions": 0x200,
    "direct_links_to_center_of_the_glyph_where_possible": 0x400,
    "interpolate_positions_of_cusp_points": 0x800,
    "interpolate_positions_of_double_links": 0x1000, "add_link_to_rsb": 0x2000,
}
EK = {
    "limit_action": 1, "limit_codepage": 2, "limit_cmap_10": 4, "limit_font_window": 8,
    "limit_count": 0x10, "limit_keep": 0x20, "apply_to_assistance": 0x1000,
}


def g_fontopt(r, c, big):
    m = {}
    keys = r.sample(sorted(FO), r.randint(0, 20))
    if r.random() < 0.3:
        keys += r.sample([k for k in range(52, 256) if k not in (100, 114, 115)], 2)
    for k in sorted(keys) if r.random() < 0.7 else keys:
        if k in (12, 13):
            v = num(r) / 10000
        elif k == 20:
            v = {"single_link_attachment_precision": r.randint(0, 7)}
            v.update((n, r.randint(0, 1)) for n in AH)
        elif k == 48:
            v = {n: r.randint(0, 1) for n in EK}
        else:
            v = num(r)
        m[FO.get(k, str(k))] = v
    return m


def e_fontopt(w, m, c):
    rev = {n: k for k, n in FO.items()}
    for n, v in m.items():
        k = rev[n] if n in rev else int(n)
        if k in (12, 13):
            v = round(v * 10000)
        elif k == 20:
            v = v["single_link_attachment_precision"] + sum(b * v[x] for x, b in AH.items())
        elif k == 48:
            v = sum(b * v[x] for x, b in EK.items())
        w.u8(k)
        w.val(v)
    w.u8(0x64)


# ---------------------------------------------------------------- glyph


def gname(i: int) -> str:
    if i < len(NAMES):
        return NAMES[i]
    return f"{NAMES[i % len(NAMES)]}.alt{i // len(NAMES)}"


TTC = {
    0x01: ("AlignTop", ("pt", "zone")),
    0x02: ("AlignBottom", ("pt", "zone")),
    0x03: ("SingleLinkH", ("pt1", "pt2", "stem", "align")),
    0x04: ("SingleLinkV", ("pt1", "pt2", "stem", "align")),
    0x05: ("DoubleLinkH", ("pt1", "pt2", "stem")),
    0x06: ("DoubleLinkV", ("pt1", "pt2", "stem")),
    0x07: ("AlignH", ("pt", "align")),
    0x08: ("AlignV", ("pt", "align")),
    0x0D: ("InterpolateH", ("pti", "pt1", "pt2", "align")),
    0x0E: ("InterpolateV", ("pti", "pt1", "pt2", "align")),
    0x14: ("MDeltaH", ("pt", "shift", "ppm1", "ppm2")),
    0x15: ("MDeltaV", ("pt", "shift", "ppm1", "ppm2")),
    0x16: ("FDeltaH", ("pt", "shift", "ppm1", "ppm2")),
    0x17: ("FDeltaV", ("pt", "shift", "ppm1", "ppm2")),
}
TTR = {n: k for k, (n, _) in TTC.items()}


def g_tth(r, c, n_nodes):
    cmds = []
    for _ in range(cnt(r, 1, 4)):
        k = r.choice(list(TTC))
        name, params = TTC[k]
        if c.export:
            p = {}
            for x in params:
                if x in ("pt", "pt1", "pt2", "pti"):
                    p[x] = r.randrange(n_nodes)
                elif x == "zone":
                    n = c.zones[0 if name == "AlignTop" else 1]
                    p[x] = r.randrange(n) if n else None
                elif x == "stem":
                    n = c.stems[1 if name.endswith("H") else 0]
                    p[x] = r.choice((-1, -2, -3, r.randrange(n) if n else -1))
                elif x == "align":
                    p[x] = r.choice((-3, -2, -1, 0, 1, 2, 3, 4))
                elif x == "shift":
                    p[x] = r.randint(-8, 8)
                else:
                    p[x] = r.randint(8, 60)
            if None in p.values():
                continue
        else:
            p = {x: num(r) for x in params}
        cmds.append({"cmd": name, "params": p})
    return cmds


def e_tth(w, cmds):
    x = W(w.noise, w.p)
    x.val(len(cmds))
    for cmd in cmds:
        k = TTR[cmd["cmd"]]
        x.u8(k)
        for p in TTC[k][1]:
            x.val(cmd["params"][p])
    for _ in range(3):
        x.val(0)
    w.u8(0x0A)
    w.val(len(x.get()))
    w.raw(x.get())


@lru_cache(None)
def program(code: bytes):
    p = Program()
    p.fromBytecode(code)
    asm = p.getAssembly()
    q = Program()
    q.fromAssembly(list(asm))
    if bytes(q.getBytecode()) != code:
        return None
    return tuple(asm)


def g_imported(r, c):
    comp = r.random() < 0.2
    ends = [r.randint(0, 70000) for _ in range(cnt(r, 0, 3))]
    m = {
        "width": u(r, 2**32 - 1), "lsb": num(r), "unknown1": num(r), "unknown2": num(r),
        "unknown3": num(r), "bbox": [num(r) for _ in range(4)],
        "num_contours": -1 if comp else len(ends), "endpoints": [] if comp else ends,
    }
    ns = []
    for _ in range(cnt(r, 0, 5)):
        f = r.randint(0, 255)
        ns.append({"flags": f, "on": f & 1, "point": (coord(r), coord(r))})
    if ns:
        m["nodes"] = ns
    code = b""
    for _ in range(cnt(r, 0, 4)):
        code += r.choice(
            (b"\x00", b"\x01", b"\xb0" + r.randbytes(1), b"\xb1" + r.randbytes(2), b"\x2b", b"\x39", b"\x4f", b"\x30")
        )
    asm = program(code)
    m["instructions"] = list(asm) if asm is not None else []
    m["_code"] = code if asm is not None else b""
    m["hdmx"] = [r.randint(0, 255) for _ in range(cnt(r, 0, 3))]
    return m


def _bytecode(m):
    if not m["instructions"]:
        return b""
    p = Program()
    p.fromAssembly(list(m["instructions"]))
    return bytes(p.getBytecode())


def e_imported(w, m):
    parts = []
    x = W(w.noise, w.p)
    x.u8(0x29)
    x.uval(m["width"])
    for k in ("lsb", "unknown1", "unknown2", "unknown3"):
        x.val(m[k])
    for v in m["bbox"]:
        x.val(v)
    parts.append(x.get())
    x = W(w.noise, w.p)
    x.u8(0x2A)
    x.val(m["num_contours"])
    for v in m["endpoints"]:
        x.uval(v)
    ns = m.get("nodes", [])
    x.uval(len(ns))
    px = py = 0
    for n in ns:
        a, b = n["point"]
        x.val(a - px)
        x.val(b - py)
        px, py = a, b
        x.u8(n["flags"])
    parts.append(x.get())
    x = W(w.noise, w.p)
    x.u8(0x2B)
    code = _bytecode(m)
    x.uval(len(code))
    x.raw(code)
    parts.append(x.get())
    x = W(w.noise, w.p)
    x.u8(0x2C)
    x.uval(len(m["hdmx"]))
    for v in m["hdmx"]:
        x.u8(v)
    parts.append(x.get())
    if w.flip():
        w.noise.shuffle(parts)
    w.u8(9)
    for p in parts:
        w.raw(p)
    w.u8(0x28)


def g_glyph(r, c, big):
    m = {"name": gname(c.gi), "num_masters": c.nm}
    comp = c.export and c.gi > 0 and r.random() < 0.3
    if big:
        m["nodes"] = nodes(r, c, n=6000 // c.nm, quad=False)
    elif c.export:
        m["nodes"] = nodes(
            r, c, quad={"t1": False, "tt": True}.get(c.simple_curves),
            n=0 if comp and r.random() < 0.8 else None,
        )
    else:
        m["nodes"] = nodes(r, c, wild_types=True)
    if c.export or r.random() < 0.9:
        m["metrics"] = [
            (r.randint(0, 1200), r.choice((0, 1000, r.randint(-9, 2000)))) if c.export
            else (num(r), num(r))
            for _ in range(c.nm)
        ]
    if r.random() < (0.7 if c.hints else 0.4):
        # hints
        h = {"h": [], "v": []}
        for d in "hv":
            for _ in range(cnt(r, 0, 2)):
                h[d].append(
                    [
                        {"pos": r.randint(-200, 800), "width": r.choice((-21, -20, r.randint(10, 120)))}
                        if c.export
                        else {"pos": num(r), "width": num(r)}
                        for _ in range(c.nm)
                    ]
                )
        if r.random() < 0.4:
            hm = []
            for _ in range(cnt(r, 1, 4)):
                k = r.choice("hvr")
                if c.export:
                    n = {"h": len(h["h"]), "v": len(h["v"]), "r": len(m["nodes"])}[k]
                    if not n:
                        continue
                    hm.append((k, r.randrange(n)))
                else:
                    hm.append((k, num(r)))
            if hm:
                h["hintmasks"] = hm
        if h["h"] or h["v"] or "hintmasks" in h:
            m["hints"] = h
    if r.random() < 0.4:
        m["guides"] = _guides(r, c)
    if comp or (not c.export and r.random() < 0.25):
        m["components"] = [
            {
                "gid": r.randrange(c.gi) if c.export else num(r),
                "offsetX": [coord(r) for _ in range(c.nm)],
                "offsetY": [coord(r) for _ in range(c.nm)],
                "scaleX": [r.choice((1.0, 1.0, 0.5, -1.0)) if c.export else dbl(r) for _ in range(c.nm)],
                "scaleY": [r.choice((1.0, 1.0, 0.5)) if c.export else dbl(r) for _ in range(c.nm)],
            }
            for _ in range(cnt(r, 1, 2))
        ]
    if r.random() < (0.9 if c.kern else 0.3) and c.glyphs:
        gids = (
            r.sample(range(c.glyphs), min(c.glyphs, r.randint(1, 3)))
            if c.export
            else {u(r, 2**31 - 1) for _ in range(cnt(r, 1, 3))}
        )
        m["kerning"] = {
            g: [r.randint(-200, 200) if c.export else num(r) for _ in range(c.nm)] for g in gids
        }
    if r.random() < 0.2:
        m["imported"] = g_imported(r, c)
        m["imported"].pop("_code", None)
    n = len(m["nodes"])
    if c.hints and comp and not n:
        # Commands of composites count the points of all components
        n = sum(c.sizes.get(x["gid"]) or 0 for x in m["components"])
        if any(c.sizes.get(x["gid"]) is None for x in m["components"]):
            n = 0
    if r.random() < (0.8 if c.hints else 0.25) and not (
        c.export and (not n or c.simple_curves != "tt")
    ):
        t = g_tth(r, c, n + 2 if c.hints else n)
        if t:
            m["tth"] = t
    if r.random() < 0.3:
        degenerate(r, m)
    return m


def degenerate(r, m):
    """Content that looks as if it could be left out or merged: zeros, repetitions."""
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.35 and m.get("kerning"):
            g = r.choice(list(m["kerning"]))
            m["kerning"][g] = [0] * len(m["kerning"][g])
        elif k < 0.5 and m.get("metrics"):
            m["metrics"] = [(0, 0)] * len(m["metrics"])
        elif k < 0.65 and m.get("hints"):
            d = r.choice("hv")
            hh = m["hints"][d]
            if hh:
                i = r.randrange(len(hh))
                if len(hh) > 1 and r.random() < 0.5:
                    hh[i] = [dict(h) for h in hh[i - 1]]
                else:
                    w = r.choice((0, None, -20, -21))
                    for h in hh[i]:
                        h["pos"] = 0
                        if w is not None:
                            h["width"] = w
        elif k < 0.75 and m.get("components"):
            c = r.choice(m["components"])
            for key, v in (("offsetX", 0), ("offsetY", 0), ("scaleX", 1.0), ("scaleY", 1.0)):
                c[key] = [v] * len(c[key])
        elif k < 0.8 and len(m.get("components", ())) > 1 and not m.get("tth"):
            m["components"][1] = {
                k: list(v) if isinstance(v, list) else v for k, v in m["components"][0].items()
            }
        elif m.get("nodes"):
            # A node at the same place as the previous one
            i = r.randrange(len(m["nodes"]))
            for q in (i, i - 1):
                if i and m["nodes"][i]["type"] != "move":
                    m["nodes"][i]["points"] = [
                        [p[0] for _ in pts]
                        for p, pts in zip(m["nodes"][i - 1]["points"], m["nodes"][i]["points"])
                    ]
                i = q


def e_glyph(w, m, c):
    w.raw(b"\x01\x09\x07\x01")
    if m.get("name"):
        e = m["name"].encode("cp1252")
        w.u8(1)
        w.val(len(e))
        w.raw(e)
    w.u8(8)
    e_nodes(w, m.get("nodes", []), m["num_masters"])
    parts = []

    def part():
        x = W(w.noise, w.p)
        parts.append(x)
        return x

    if m.get("metrics"):
        x = part()
        x.u8(2)
        for a, b in m["metrics"]:
            x.val(a)
            x.val(b)
    h = m.get("hints")
    if h or w.flip(0.3):
        h = h or {"h": [], "v": []}
        x = part()
        x.u8(3)
        for d in "hv":
            x.val(len(h[d]))
            for mm in h[d]:
                for q in mm:
                    x.val(q["pos"])
                    x.val(q["width"])
        hm = h.get("hintmasks", [])
        x.val(len(hm))
        for k, v in hm:
            x.u8({"h": 1, "v": 2, "r": 255}[k])
            x.val(v)
    if m.get("guides"):
        x = part()
        x.u8(4)
        e_guides(x, m["guides"], c)
    if m.get("components"):
        x = part()
        x.u8(5)
        x.val(len(m["components"]))
        for k in m["components"]:
            x.val(k["gid"])
            for i in range(m["num_masters"]):
                x.val(k["offsetX"][i])
                x.val(k["offsetY"][i])
                x.dbl(k["scaleX"][i])
                x.dbl(k["scaleY"][i])
    if m.get("kerning"):
        x = part()
        x.u8(6)
        x.val(len(m["kerning"]))
        for g, vs in m["kerning"].items():
            x.val(g)
            for v in vs:
                x.val(v)
    if m.get("imported"):
        e_imported(part(), m["imported"])
    if m.get("tth") or w.flip(0.1):
        e_tth(part(), m.get("tth", []))
    if w.flip(0.3):
        w.noise.shuffle(parts)
    for p in parts:
        w.raw(p.get())
    w.u8(0x0F)


# ---------------------------------------------------------------- the table

HEX = (g_hex, e_hex)
STR = (g_str, e_str)
TTPROG = (lambda r, c, big: g_ttprog(r, c, big), e_hex)
U16 = (g_u16, e_u16)
S16 = (g_s16, e_s16)
DBL = (g_dbl, e_dbl)

FONT: dict[int, tuple] = {}
for _i in (1, 4, 262, 518, 257, 513, 271, 527, 272, 528, 5, 2, 2030):
    FONT[_i] = HEX
for _i in (1261, 1262, 1263):
    FONT[_i] = TTPROG
for _i in (1026, 1046, 1038, 1025, 1027, 1024, 1056, 1092, 1028, 1065, 1069, 1070, 1037,
           1061, 1062, 1063, 1064, 1039, 1128, 1129, 1127, 1137, 1139, 1140, 1059, 2025,
           2016, 1066, 1514, 1504):
    FONT[_i] = STR
for _i in (1502, 1503, 1034, 1031, 1054, 1134, 1132, 1130, 1131, 1135, 1090, 1530, 1531,
           1532, 1533, 1534, 1535, 1267, 1057, 1058, 1060, 1270, 1272, 1274, 1275, 1604,
           2022):
    FONT[_i] = U16
FONT[1513] = (g_axcount, e_u16)
for _i in (1048, 1030, 1278, 1279, 2032):
    FONT[_i] = S16
for _i in (1029, 1047):
    FONT[_i] = DBL
for _i in (1517, 1247):
    FONT[_i] = (g_dbls, e_dbls)
FONT |= {
    10: (g_flversion, e_flversion),
    1501: (g_encoding, e_encoding),
    1500: (g_encoding, e_encoding),
    1044: (g_s32, e_s32),
    1118: (g_panose, e_panose),
    1121: (g_vendor, e_vendor),
    1133: (g_xuid, e_xuid),
    1093: (g_ps_global, e_ps_global),
    1068: (g_valsc, e_valsc),
    1265: (g_gasp, e_gasp),
    1264: (g_ttinfo, e_ttinfo),
    1271: (g_vdmx, e_vdmx),
    1269: (g_stems, e_stems),
    1266: (_g_ppems((2, 3)), _e_ppems((2, 3))),
    1268: (_g_ppems((2, 3, 4, 5)), _e_ppems((2, 3, 4, 5))),
    1524: (_g_ppems((1,)), _e_ppems((1,), False)),
    1255: (g_zones, e_zones),
    2021: (g_uranges, e_uranges),
    1273: (g_zdeltas, e_zdeltas),
    1138: (g_names, e_names),
    1141: (g_cmap, e_cmap),
    1136: (g_pclt, e_pclt),
    2024: (g_mcf, e_cf),
    2026: (g_kcf, e_cf),
    2014: (g_table, e_table),
    1276: (g_fea, e_fea),
    1277: (g_classdef, e_str),
    1523: (g_aniso, e_aniso),
    1515: (g_axmapc, e_axmapc),
    1516: (g_axmap, e_axmap),
    1505: (g_mloc, e_mloc),
    1254: (g_pinst, e_pinst),
    1536: (g_psinfo, e_psinfo),
    1294: (g_guides, e_guides),
    1296: (g_gprops, e_gprops),
    1295: (g_gmask, e_gmask),
    1743: (g_fontopt, e_fontopt),
    1744: (g_expopt, e_expopt),
    1742: (g_mapping, e_mapping),
    1410: (g_kernpair, e_kernpair),
}
GLYPH: dict[int, tuple] = {
    2001: (g_glyph, e_glyph),
    2008: (g_links, e_links),
    2007: (g_image, e_image),
    2013: (g_bitmaps, e_bitmaps),
    2023: (g_vals, e_vals),
    2019: (g_sketch, e_sketch),
    2010: (g_ps_glyph, e_ps_glyph),
    2009: (g_mask, e_mask),
    2011: (g_pair16, e_pair16),
    2028: (g_mmm, e_mmm),
    2027: (g_origin, e_origin),
    1250: (g_unicodes, e_unicodes),
    2034: STR,
    1253: (g_unicodes32, e_unicodes32),
    2012: U16,
    2015: STR,
    2017: STR,
    2018: (g_gdef, e_gdef),
    2020: (g_anchsup, e_anchsup),
    2029: (g_anchmm, e_anchmm),
    2031: (g_gprops, e_gprops),
}
UNKNOWN = (1200, 1302, 2006, 9, 31999, 1000, 1711)
ALL = {**FONT, **GLYPH, **{k: HEX for k in UNKNOWN}}
