"""P15: an export shows the font's current content for every master."""

from copy import deepcopy
from io import BytesIO
from pathlib import Path

from .. import fontgen, ref, ufomodel
from ..core import Violation
from ..sched import Interrupt
from .p02 import assign
from .p03 import Unencodable

ID = "P15"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = (
    "A random exportable font (1, 2 or 4 masters) and a random history of up to 16 edits "
    "(whole entries or single values), decodings, encodings, saves, failed saves, "
    "interrupted calls, reloads, glyph accesses and earlier exports; after some of the steps "
    "and at the end an export with random options, and drawings of glyphs on segment and "
    "point pens, are compared with a reference model of the export."
)
STATES = "distinct (last three kinds of steps, observation, masters, outline type) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo", "ufoLib2",
        "fontTools designspaceLib"]
STUB = ["interruption (sim.sched)", "clock"]
ASSUMPTIONS = [
    "All entries are decoded before an export, as the converter does.",
    "Glyphs that are renamed or added are looked up by pens only after a reload.",
    "Point names, glyph libs, hints and feature code are not compared (P08, P19, P20).",
]
WHOLE = (2001, 1250, 1253, 2018, 2029, 2031, 1536, 1277, 2026, 1294, 1296, 1505, 1254, 2009)
KINDS = ("met", "met", "pt", "pt", "flag", "kern", "kern", "uni", "ren", "nocomp", "comp", "info",
         "open", "rmnode", "pen", "add", "upm", "move", "anchor", "loc", "dup")


def gen(r, tier):
    spec = fontgen.export_spec(r, max_glyphs=r.choice((2, 4, 6)))
    ops = []
    for _ in range(r.choice((0, 1, 3, 6, 10, 16))):
        k = r.random()
        if k < 0.12:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
        elif k < 0.45:
            ops.append([r.choice(KINDS), r.randrange(1000), r.randrange(1000), r.randrange(1000),
                        r.randint(-300, 900), r.randint(-300, 900)])
        elif k < 0.62:
            ops.append([r.choice(("dec", "com", "save", "save", "keys", "upm?"))])
        elif k < 0.7:
            ops.append([r.choice(("dece", "come", "badsave", "badsave")), r.randrange(1000)])
        elif k < 0.76:
            ops.append(["int", r.choice(("dec", "com", "save", "keys", "export", "draw")),
                        r.choice((r.random(), r.random() * 0.1)),
                        r.choice(("KeyboardInterrupt", "MemoryError"))])
        elif k < 0.8:
            ops.append([r.choice(("reload", "new"))])
        elif k < 0.9:
            ops.append(["export", r.randrange(64)])
        else:
            ops.append(["draw", r.choice(("seg", "pts", "master", "master")), r.randrange(1000),
                        r.randrange(1000)])
    return {"spec": spec, "ops": ops, "last": r.randrange(64)}


class Font:
    def __init__(self, scn, rec):
        from vfbLib.vfb.vfb import Vfb

        self.rec = rec
        font = fontgen.build(scn["spec"])
        self.ents = ref.entries_of(font)
        self.nm = scn["spec"]["nm"]
        self.tag = (self.nm, scn["spec"]["curves"])
        self.vfb = Vfb(timing=False)
        self.vfb.read_bytes(BytesIO(font.source()))
        self.stale = False  # the pens' glyph set is that of before a renaming
        self.seen = False  # the glyph set has been built
        self.serial = 0

    def content(self):
        return [(m.eid, m.model) for m in self.ents]

    def glyphs(self):
        return [i for i, m in enumerate(self.ents) if m.eid == 2001]

    def following(self, i, eid):
        """Entries of a kind that belong to the glyph at i."""
        out = []
        for j in range(i + 1, len(self.ents)):
            if self.ents[j].eid == 2001:
                break
            if self.ents[j].eid == eid:
                out.append(j)
        return out

    def data(self, i):
        e = self.vfb.entries[i]
        e.decompile()
        return e.data

    def put(self, i, model):
        if self.seen and self.ents[i].eid == 2001 and model["name"] != self.ents[i].model["name"]:
            self.stale = True
        e = self.vfb.entries[i]
        e.decompile()
        if not assign(e.data, model):
            e.data = deepcopy(model)
        self.ents[i].model = deepcopy(model)

    # -------------------------------------------------------------- edits

    def edit(self, op):
        kind, a, b, c, v, w = op
        gl = self.glyphs()
        k = a % len(gl)
        i = gl[k]
        m = self.ents[i].model
        d = self.data(i)
        mi = c % self.nm
        both = (m, d)
        nodes = m["nodes"]
        if kind == "met":
            for x in both:
                x["metrics"][mi] = (v + 300, w)
        elif kind in ("pt", "flag", "open", "rmnode") and not nodes:
            return False
        elif kind == "pt":
            n = b % len(nodes)
            for x in both:
                p = x["nodes"][n]["points"][mi]
                p[v % len(p)] = (v, w)
        elif kind == "flag":
            n = b % len(nodes)
            for x in both:
                x["nodes"][n]["flags"] ^= 1
        elif kind == "open":
            n = next(j for j in range(len(nodes)) if nodes[j]["type"] == "move")
            for x in both:
                x["nodes"][n]["flags"] ^= 8
        elif kind == "rmnode":
            n = b % len(nodes)
            # Not if something refers to nodes by their number
            if nodes[n]["type"] == "move" or "tth" in m or "hintmasks" in m.get("hints", {}) or (
                self.following(i, 2008)
            ):
                return False
            for x in both:
                del x["nodes"][n]
        elif kind == "kern":
            gid = b % len(gl)
            values = [(v + 7 * j) % 5 * w // 9 for j in range(self.nm)]
            for x in both:
                x.setdefault("kerning", {})[gid] = list(values)
        elif kind == "uni":
            f = self.following(i, 1250)
            if not f:
                return False
            self.put(f[0], [abs(v) + 1, abs(w) + 1000][: 1 + c % 2])
        elif kind == "ren":
            self.serial += 1
            for x in both:
                x["name"] = f"renamed{self.serial}"
            if self.seen:
                self.stale = True
        elif kind == "dup":
            if len(gl) < 2:
                return False
            name = self.ents[gl[b % len(gl)]].model["name"]
            for x in both:
                x["name"] = name
            if self.seen:
                self.stale = True
        elif kind == "nocomp":
            if "components" not in m or "tth" in m:
                return False
            for x in both:
                del x["components"]
        elif kind == "comp":
            if k == 0 or "tth" in m or "hints" in m or self.following(i, 2008):
                return False
            comp = {
                "gid": b % k, "offsetX": [v + j for j in range(self.nm)],
                "offsetY": [w - j for j in range(self.nm)],
                "scaleX": [1.0] * self.nm, "scaleY": [0.5 + j for j in range(self.nm)],
            }
            for x in both:
                x.setdefault("components", []).append(deepcopy(comp))
        elif kind == "info":
            ps = [j for j, x in enumerate(self.ents) if x.eid == 1536]
            key = ("ascender", "descender", "x_height", "cap_height")[b % 4]
            self.data(ps[mi])[key] = self.ents[ps[mi]].model[key] = w
        elif kind == "upm":
            for j, x in enumerate(self.ents):
                if x.eid == 1135:
                    self.put(j, (1000, 2048, 500)[b % 3])
        elif kind == "anchor":
            f = self.following(i, 2029)
            if not f or not self.ents[f[0]].model:
                return False
            n = b % len(self.ents[f[0]].model)
            for x in (self.ents[f[0]].model, self.data(f[0])):
                x[n]["x"][mi] = v
        elif kind == "loc":
            f = [j for j, x in enumerate(self.ents) if x.eid == 1505]
            j = f[mi]
            n, loc = self.ents[j].model
            self.put(j, (n, (float(b % 2), *loc[1:])))
        elif kind == "pen":
            # Drawing with a pen in a font with one master
            if self.nm > 1 or self.stale or "tth" in m or "hintmasks" in m.get("hints", {}) or (
                self.following(i, 2008)
            ):
                return False
            pts = [(v, w), (v + 10, w), (c, b), (b, c - 500)]
            name = ufomodel.unique([self.ents[j].model["name"] for j in gl], 1)[k]
            g = self.vfb[name] if b % 2 else self.vfb.getGlyphMaster(name, 0)
            self.seen = True
            g.clearContours()
            pen = g.getPen()
            pen.moveTo(pts[0])
            pen.lineTo(pts[1])
            pen.lineTo(pts[2])
            pen.closePath()
            m.pop("hints", None)
            m["nodes"] = [{"type": "line" if j else "move", "flags": 0, "points": [[tuple(p)]]}
                          for j, p in enumerate(pts[:3])]
        elif kind == "add":
            from vfbLib.vfb.entry import VfbEntry

            self.serial += 1
            ctx = deepcopy(self.ents[i].item.ctx)
            ctx.gi = 0
            model, _ = fontgen.content(2001, v, ctx)
            for key in ("components", "hints", "tth", "kerning", "imported"):
                model.pop(key, None)
            model["name"] = f"added{self.serial}"
            canon = fontgen.encode(2001, model, ctx)
            e = VfbEntry(self.vfb, eid=2001)
            e.data = canon
            at = len(self.ents) - 1
            self.vfb.entries.insert(at, e)
            item = fontgen.Item(2001, canon, canon, model, False, None, ctx, 0)
            self.ents.insert(at, ref.E(2001, canon, canon, model, item=item))
            if self.seen:
                self.stale = True
        elif kind == "move":
            # The order of the Unicode entries of a glyph doesn't matter to other entries
            f = self.following(i, 1250) + self.following(i, 1253)
            if len(f) < 2:
                return False
            p, q = f[0], f[1]
            for x in (self.ents, self.vfb.entries):
                x[p], x[q] = x[q], x[p]
        return True

    def whole(self, op):
        pool = [i for i, m in enumerate(self.ents) if m.eid in WHOLE]
        i = pool[op[1] % len(pool)]
        m = self.ents[i]
        if m.eid == 2018:
            g = max(j for j in self.glyphs() if j < i)
            if self.following(g, 2029):
                return False
        model, _ = fontgen.content(m.eid, op[2], m.item.ctx)
        if m.eid == 2001:
            if m.model["name"].startswith(("renamed", "added")):
                model["name"] = m.model["name"]
                if m.model["name"].startswith("added"):
                    return False
            for j in self.following(i, 2008):
                self.put(j, {"x": [], "y": []})
        if m.eid == 2029 and len(model) != len(m.model):
            return False
        self.put(i, model)
        return True

    # -------------------------------------------------------------- uses

    def do(self, name):
        vfb = self.vfb
        if name == "dec":
            vfb.decompile()
        elif name == "com":
            vfb.compile()
        elif name == "save":
            vfb.write_bytes(BytesIO())
        elif name == "keys":
            list(vfb.keys())
            self.seen = True
        elif name == "export":
            vfb.decompile()
            self.builder(0)
        elif name == "draw":
            from fontTools.pens.recordingPen import RecordingPointPen

            self.seen = True
            for n in list(vfb.keys()):
                vfb[n].drawPoints(RecordingPointPen())

    def builder(self, bits):
        from vfbLib.ufo.builder import VfbToUfoBuilder

        opts = {"minimal": bool(bits & 1), "base64": bool(bits & 2), "pshints": not bits & 4,
                "add_kerning_groups": bool(bits & 8), "move_groups": not bits & 16}
        return VfbToUfoBuilder(self.vfb, **opts), opts

    def check_export(self, bits, what):
        self.vfb.decompile()
        b, opts = self.builder(bits)
        for _ in range(2 if bits & 32 else 1):
            ufos, ds = b.get_ufos_designspace(Path("out.ufo"), silent=True)
            content = self.content()
            want = ufomodel.masters(content, opts["minimal"], opts["move_groups"])
            if opts["add_kerning_groups"] and opts["move_groups"]:
                for u in want:
                    u["groups"] = {k: x for k, x in u["groups"].items() if k.startswith(".")}
            got = [ufomodel.reduced(u) for u in ufos]
            if len(got) != len(want):
                raise Violation("masters", f"{what}: {len(got)} UFOs instead of {len(want)}")
            for n, (x, y) in enumerate(zip(want, got)):
                d = ufomodel.difference(x, y)
                if d:
                    raise Violation("export differs", f"{what}: master {n}: {d}")
            d = ufomodel.difference(ufomodel.designspace(content), ufomodel.reduced_designspace(ds))
            if d:
                raise Violation("designspace differs", f"{what}: {d}")

    def check_draw(self, how, a, b, what):
        from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

        if self.stale:
            return
        self.seen = True
        gl = self.glyphs()
        d = self.ents[gl[a % len(gl)]].model
        names = ufomodel.unique([self.ents[i].model["name"] for i in gl], 1)
        n = names[a % len(gl)]
        if list(self.vfb.keys()) != names:
            raise Violation("glyphs differ", f"{what}: {list(self.vfb.keys())} instead of {names}")
        if how == "seg":
            pen = RecordingPen()
            self.vfb[n].draw(pen)
            want, got = ufomodel.segment_events(d, names), pen.value
        else:
            pen = RecordingPointPen()
            if how == "pts":
                self.vfb[n].drawPoints(pen)
                m = 0
            else:
                m = b % self.nm
                self.vfb.getGlyphMaster(n, m).drawPoints(pen)
            want, got = ufomodel.point_events(d, names, m), events(pen.value)
        x = ufomodel.difference(want, got)
        if x:
            raise Violation("drawing differs", f"{what}: glyph {n} ({how}): {x}")

    def reload(self, new):
        from vfbLib.vfb.vfb import Vfb

        buf = BytesIO()
        self.vfb.write_bytes(buf)
        buf.seek(0)
        if new:
            self.vfb = Vfb(timing=False)
        self.vfb.read_bytes(buf)
        self.stale = self.seen = False

    def badsave(self, x):
        i = x % len(self.ents)
        if self.ents[i].eid == 10:
            return
        e = self.vfb.entries[i]
        old = e.data
        e.data = Unencodable()
        try:
            self.vfb.write_bytes(BytesIO())
        except Exception as err:
            self.rec.fault("failed save")
            self.rec.ev("failed", type(err).__name__)
        else:
            raise Violation("silent failure", f"entry {i} ({self.ents[i].eid})")
        e.data = old


def events(value):
    """Calls of a RecordingPointPen without the names of points."""
    out = []
    for name, args, kw in value:
        if name == "addPoint":
            out.append(("point", tuple(args[0]), args[1], args[2]))
        elif name == "beginPath":
            out.append(("begin",))
        elif name == "endPath":
            out.append(("end",))
        else:
            out.append(("component", args[0], tuple(args[1])))
    return out


def play(f, ops, rec, extra):
    """
    Run the steps of a scenario. `extra` has a function for each kind of step which is not
    common to all properties that use this harness; a step that returns False was left out.
    """
    last = []
    for n, op in enumerate(ops):
        kind = op[0]
        what = f"op {n} {op} after {last}"
        if kind in extra:
            if extra[kind](op, what, last) is False:
                continue
        elif kind == "set":
            if not f.whole(op):
                continue
        elif kind in ("dec", "com", "save", "keys"):
            f.do(kind)
        elif kind == "dece":
            f.vfb.entries[op[1] % len(f.ents)].decompile()
        elif kind == "come":
            f.vfb.entries[op[1] % len(f.ents)].compile()
        elif kind == "badsave":
            f.badsave(op[1])
        elif kind == "int":
            error = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op[3]]
            it = Interrupt(1 + int(op[2] * 3000), error)
            try:
                it(f.do, op[1])
            except error:
                pass
            f.seen = True
            if it.fired:
                rec.fault(op[3])
            rec.ev(n, it.fired)
        elif kind in ("reload", "new"):
            f.reload(kind == "new")
        elif kind == "export":
            rec.state(tuple(last[-3:]), "export", op[1] & 5, *f.tag)
            f.check_export(op[1], what)
        elif not f.edit(op):
            continue
        last = [*last[-3:], kind if kind != "int" else f"int {op[1]}"]
        rec.ev(n, *op)


def run(scn, rec):
    f = Font(scn, rec)

    def draw(op, what, last):
        rec.state(tuple(last[-3:]), op[1], *f.tag)
        f.check_draw(op[1], op[2], op[3], what)

    def final(op, what, last):
        for g in range(len(f.glyphs())):
            for how in ("seg", "pts"):
                f.check_draw(how, g, 0, what)
            for m in range(f.nm):
                f.check_draw("master", g, m, what)

    def upm(op, what, last):
        f.vfb.info.unitsPerEm

    ops = [*scn["ops"], ["export", scn["last"]], ["final"]]
    play(f, ops, rec, {"draw": draw, "final": final, "upm?": upm})
