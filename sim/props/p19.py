"""P19: exported hints refer to the right points, zones and stems."""

from pathlib import Path

from .. import fontgen, hintmodel
from ..core import Violation
from ..ufomodel import difference
from . import p15

ID = "P19"
LEVEL = "exploration"
RUNS = {"quick": 7200, "thorough": 60000}
RULE = (
    "A random exportable font (1, 2 or 4 masters) with TrueType or PostScript hints and "
    "composites, names of stems and zones that are empty, repeated or contain special "
    "characters, and a random history of up to 16 edits of hints, outlines, stems, zones and "
    "names, decodings, encodings, saves, failed saves, interrupted calls, reloads and earlier "
    "exports; UFO exports, TrueType hinting exports and resolved PostScript hints are compared "
    "with a reference model that resolves each reference to node, zone and stem."
)
STATES = "distinct (last three kinds of steps, observation, masters, outline type) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo", "vfbLib.tth", "ufoLib2"]
STUB = ["interruption (sim.sched)", "clock"]
ASSUMPTIONS = [
    "All entries are decoded before an export, as the converters do.",
    "Hints refer to existing nodes, zones and stems; stems come with their rounding entry.",
    "The node numbers of hinted composites are defined if the composite has no outlines of its "
    "own and its components are no composites.",
]
OWN = ("tparam", "tparam", "tdel", "tdup", "stem", "stem", "zone", "zone", "delta", "hint", "hint",
       "link", "mask")
OTHER = ("pt", "pt", "flag", "met", "open", "dup", "ren", "close", "close")


def gen(r, tier):
    spec = fontgen.export_spec(
        r, max_glyphs=r.choice((2, 4, 6)), curves=r.choice(("tt", "tt", "t1")))
    spec["hints"] = True
    ops = []
    for _ in range(r.choice((0, 1, 3, 6, 10, 16))):
        k = r.random()
        if k < 0.1:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
        elif k < 0.5:
            ops.append([r.choice(OWN + OTHER), r.randrange(1000), r.randrange(1000),
                        r.randrange(1000), r.randint(-300, 900), r.randint(-300, 900)])
        elif k < 0.64:
            ops.append([r.choice(("dec", "com", "save", "save", "keys"))])
        elif k < 0.7:
            ops.append([r.choice(("dece", "come", "badsave", "badsave")), r.randrange(1000)])
        elif k < 0.76:
            ops.append(["int", r.choice(("dec", "com", "save", "export", "tth", "resolve")),
                        r.choice((r.random(), r.random() * 0.1)),
                        r.choice(("KeyboardInterrupt", "MemoryError"))])
        elif k < 0.8:
            ops.append([r.choice(("reload", "new"))])
        elif k < 0.9:
            ops.append(["export", r.randrange(64)])
        elif k < 0.95:
            ops.append(["tth"])
        else:
            ops.append(["resolve", r.randrange(1000), r.randrange(1000)])
    return {"spec": spec, "ops": ops, "last": r.randrange(64)}


class Font(p15.Font):
    def __init__(self, scn, rec):
        super().__init__(scn, rec)
        self.kept = {}

    def reload(self, new):
        super().reload(new)
        self.kept = {}

    def edit(self, op):
        kind, a, b, c, v, w = op
        gl = self.glyphs()
        i = gl[a % len(gl)]
        m = self.ents[i].model
        mi = c % self.nm
        if kind in ("stem", "zone", "delta"):
            return self.font_edit(op)
        if kind not in (*OWN, "close"):
            return super().edit(op)
        both = (m, self.data(i))
        if kind in ("tparam", "tdel", "tdup"):
            t = m.get("tth")
            if not t:
                return False
            n = b % len(t)
            if kind == "tdel":
                if len(t) < 2:
                    return False
                for x in both:
                    del x["tth"][n]
            elif kind == "tdup":
                cmd = t[n]
                at = c % (len(t) + 1)
                for x in both:
                    x["tth"].insert(at, {"cmd": cmd["cmd"], "params": dict(cmd["params"])})
            else:
                p = t[n]["params"]
                key = sorted(p)[c % len(p)]
                h = self.hints()
                if key.startswith("pt"):
                    k = a % len(gl)
                    total = len(m["nodes"]) if h.parts(k) is None else h.total(k)
                    value = v % (total + 2)
                elif key == "zone":
                    value = v % len(h.zones["ttZonesB" if t[n]["cmd"] == "AlignBottom" else "ttZonesT"])
                elif key == "stem":
                    value = v % (len(h.stems["ttStems" + t[n]["cmd"][-1]]) + 3) - 3
                elif key == "align":
                    value = v % 8 - 3
                else:
                    value = abs(v) % 60
                for x in both:
                    x["tth"][n]["params"][key] = value
        elif kind == "hint":
            hh = m.get("hints", {}).get("hv"[b % 2])
            if not hh:
                return False
            for x in both:
                y = x["hints"]["hv"[b % 2]][c % len(hh)][v % self.nm]
                y["pos" if w % 2 else "width"] = w
        elif kind == "mask":
            h = m.get("hints", {})
            if not h.get("hintmasks"):
                return False
            n = b % len(h["hintmasks"])
            d = h["hintmasks"][n][0]
            size = len(m["nodes"]) if d == "r" else len(h[d])
            if not size:
                return False
            for x in both:
                x["hints"]["hintmasks"][n] = (d, c % size)
        elif kind == "link":
            f = self.following(i, 2008)
            if not f or not m["nodes"]:
                return False
            l = self.ents[f[-1]].model["xy"[b % 2]]
            if not l:
                return False
            new = (v % len(m["nodes"]), w % (len(m["nodes"]) + 2) - 2)
            for x in (self.ents[f[-1]].model, self.data(f[-1])):
                x["xy"[b % 2]][c % len(l)] = new
        elif kind == "close":
            # Move the last node of a contour to its start, in one or all masters
            nodes = m["nodes"]
            starts = [j for j, n in enumerate(nodes) if n["type"] == "move"]
            if not starts:
                return False
            s = b % len(starts)
            first = starts[s]
            last = starts[s + 1] - 1 if s + 1 < len(starts) else len(nodes) - 1
            if first == last:
                return False
            for x in both:
                for q in range(self.nm) if w % 4 else [mi]:
                    x["nodes"][last]["points"][q][0] = x["nodes"][first]["points"][q][0]
        return True

    def font_edit(self, op):
        kind, a, b, c, v, w = op
        where = {j.eid: i for i, j in enumerate(self.ents) if j.eid in (1255, 1268, 1269, 1273, 1524)}
        from ..gens import TT_NAMES

        if kind == "stem":
            eid = (1269, 1269, 1268, 1524)[a % 4]
            d = ("ttStemsH", "ttStemsV")[b % 2]
            if eid not in where or not self.ents[where[eid]].model[d]:
                return False
            i = where[eid]
            for x in (self.ents[i].model, self.data(i)):
                s = x[d][c % len(x[d])]
                if eid == 1269 and w % 3 == 0:
                    s["name"] = TT_NAMES[v % len(TT_NAMES)]
                elif eid == 1269 and w % 3 == 1:
                    s["value"] = v
                else:
                    keys = sorted(s["round"])
                    s["round"][keys[w % len(keys)]] = v % 12 + 1
        elif kind == "zone":
            d = ("ttZonesB", "ttZonesT")[b % 2]
            if 1255 not in where or not self.ents[where[1255]].model[d]:
                return False
            i = where[1255]
            for x in (self.ents[i].model, self.data(i)):
                z = x[d][c % len(x[d])]
                if w % 3 == 0:
                    z["name"] = TT_NAMES[v % len(TT_NAMES)]
                else:
                    z["position" if w % 3 == 1 else "value"] = v
        else:
            n = sum(len(z) for z in self.hints().zones.values())
            if 1273 not in where or not n:
                return False
            i = where[1273]
            for x in (self.ents[i].model, self.data(i)):
                x.setdefault(b % n, {})[c % 60] = v % 8 + 1
        return True

    def whole(self, op):
        """Other content for a whole glyph, if no hints of other glyphs depend on it."""
        gl = self.glyphs()
        k = op[1] % len(gl)
        for j in gl:
            if any(c["gid"] == k for c in self.ents[j].model.get("components", ())):
                return False
        m = self.ents[gl[k]]
        model, _ = fontgen.content(2001, op[2], m.item.ctx)
        model["name"] = m.model["name"]
        for j in self.following(gl[k], 2008):
            self.put(j, {"x": [], "y": []})
        self.put(gl[k], model)
        m.item.ctx.sizes[k] = None if model.get("components") else len(model["nodes"])
        return True

    def hints(self):
        return hintmodel.Hints(self.content())

    def do(self, name):
        if name == "tth":
            from vfbLib.tth import extract_truetype_hinting

            extract_truetype_hinting(self.vfb)
        elif name == "resolve":
            self.seen = True
            for n in list(self.vfb.keys()):
                self.vfb[n].resolve_hint_sets()
        else:
            super().do(name)

    # ---------------------------------------------------------------- checks

    def check_export(self, bits, what):
        self.vfb.decompile()
        b, opts = self.builder(bits)
        for _ in range(2 if bits & 32 else 1):
            ufos, _ = b.get_ufos_designspace(Path("out.ufo"), silent=True)
            h = self.hints()
            for m, ufo in enumerate(ufos):
                self.check_ufo(hintmodel.Ufo(ufo, h, m), h, m, opts, what)

    def check_ufo(self, u, h, m, opts, what):
        for name, got, want in (("stems", u.stems, h.stems), ("zones", u.zones, h.zones)):
            n = sum(map(len, want.values()))
            if len(got) != n:
                raise Violation("export differs", f"{what}: {len(got)} {name} instead of {n}: {got}")
        for k, name in enumerate(h.names):
            if h.parts(k) is None:
                continue
            got = u.commands(k)
            want = hintmodel.expected_commands(h, k)
            d = got if isinstance(got, str) else difference(want, got)
            if d:
                raise Violation(
                    "TrueType hints differ",
                    f"{what}: glyph {name}, master {m}: {d}; commands {h.glyphs[k].get('tth')}")
            got = u.hint_sets(k)
            want = hintmodel.expected_sets(h, k, m) if opts["pshints"] else {}
            d = got if isinstance(got, str) else difference(want, got)
            if d:
                raise Violation(
                    "PostScript hints differ", f"{what}: glyph {name}, master {m}: {d}")

    def check_tth(self, what):
        from vfbLib.tth import extract_truetype_hinting

        got = extract_truetype_hinting(self.vfb)
        h = self.hints()
        font, glyphs = got["font"], got["glyphs"]
        stems, zones = font.get("stems", {}), font.get("zones", {})
        for name, x, want in (("stems", stems, h.stems), ("zones", zones, h.zones)):
            n = sum(map(len, want.values()))
            if len(x) != n:
                raise Violation("hinting data differs", f"{what}: {len(x)} {name} instead of {n}: {x}")
        for z in h.zones.values():
            for x in z:
                if "delta" in x:
                    x["deltas"] = x.pop("delta")
        want = {}
        for k, name in enumerate(h.names1):
            if h.glyphs[k].get("tth"):
                want[name] = h.commands(k)
        found = {}
        for name, cmds in glyphs.items():
            found[name] = []
            for c in cmds:
                c = dict(c)
                pts = {x: c.pop(x) for x in ("point", "point1", "point2") if x in c}
                z = c.pop("zone", None)
                s = c.pop("stem", None)
                found[name].append((
                    c.pop("code"), pts, zones.get(z, f"unknown zone {z!r}") if z is not None else None,
                    stems.get(s, f"unknown stem {s!r}") if s is not None else None,
                    {x: str(v).lower() for x, v in c.items()},
                ))
        d = difference(want, found)
        if d:
            raise Violation("hinting data differs", f"{what}: {d}")

    def options_of(self, k=None):
        """The entry with the hinting options of a glyph, or of the font."""
        found, n = None, -1
        for i, m in enumerate(self.ents):
            n += m.eid == 2001
            if m.eid == (1093 if k is None else 2010) and k in (None, n):
                found = self.vfb.entries[i]
        return found

    def check_resolve(self, a, b, what):
        if self.stale:
            return
        self.seen = True
        h = self.hints()
        k = a % len(h.names1)
        m = b % self.nm
        name = h.names1[k]
        if (a + b) % 3 == 0:
            # An object from before all other steps since the font was loaded
            g = self.kept.setdefault(name, dict(self.vfb.items())[name])
        else:
            g = self.vfb[name]
        g.master_index = m
        try:
            got = g.resolve_hints()
            sets = g.resolve_hint_sets()
        finally:
            g.master_index = 0
        options = self.options_of(k)
        if g.ps_hinting_options is not options or self.vfb.ps_hinting_options is not self.options_of():
            raise Violation(
                "hinting options", f"{what}: glyph {name}: {g.ps_hinting_options} is not {options}, "
                f"font: {self.vfb.ps_hinting_options} is not {self.options_of()}")
        want = h.stems_ps(k, m)
        d = difference(want, got)
        if d:
            raise Violation("resolved hints differ", f"{what}: glyph {g.decompile()}, master {m}: {d}")
        want = {}
        for i, stems in h.hint_sets(k, m):
            if stems or not h.glyphs[k].get("hints", {}).get("hintmasks"):
                want[i] = stems
        d = difference(want, sets)
        if d:
            raise Violation("resolved hints differ", f"{what}: glyph {g.decompile()}, master {m}: sets {d}")


def legal(spec):
    """FontLab writes the rounding of the stems before the stems, and both before all glyphs."""
    ids = [e[0] for e in spec["entries"]]
    need = [i for i in (1268, 1269, 1255, 2001) if i in ids]
    return 1269 not in ids or 1268 in ids and [i for i in dict.fromkeys(ids) if i in need] == need


def run(scn, rec):
    if not legal(scn["spec"]):
        return
    f = Font(scn, rec)

    def tth(op, what, last):
        rec.state(tuple(last[-3:]), "tth", *f.tag)
        f.check_tth(what)

    def resolve(op, what, last):
        rec.state(tuple(last[-3:]), "resolve", *f.tag)
        f.check_resolve(op[1], op[2], what)

    def final(op, what, last):
        if scn["last"] & 16:
            list(f.vfb.keys())
            f.vfb.compile()
        for g in range(len(f.glyphs())):
            for m in range(f.nm):
                f.check_resolve(g, m, what)

    ops = [*scn["ops"], ["export", scn["last"]], ["tth"], ["final"]]
    p15.play(f, ops, rec, {"tth": tth, "resolve": resolve, "final": final})
