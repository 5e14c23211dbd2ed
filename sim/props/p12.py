"""P12: drawing into masters stores for each master exactly what was drawn."""

from copy import deepcopy
from io import BytesIO
from pathlib import Path
from random import Random

from .. import disk, fontgen, ref, ufomodel
from ..core import Violation
from ..sched import Interrupt
from ..wire import same, where
from .p03 import FailingBuffer, Unencodable
from .p15 import events

ID = "P12"
LEVEL = "exploration"
RUNS = {"quick": 12500, "thorough": 150000}
RULE = (
    "A random font with 1 to 4 masters and a random history of up to 8 rounds of drawing: "
    "1 to 3 glyphs are cleared and redrawn in all or some masters through segment and point "
    "pens, the calls of all pens interleaved path by path (with reads of other glyphs, "
    "abandoned pens and rejected curves in between) as the seeded schedule says. Between the "
    "rounds: saves, failed, interrupted and repeated saves, encodings, decodings and reloads. "
    "After each round the first master, after each save the bytes of every entry and after "
    "each reload the content are compared with the reference model."
)
STATES = "distinct (masters, glyphs per round, master order, last two steps before the round) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo.paths", "fontTools pens"]
STUB = ["interleaving of the pens (recorded schedule)", "interruption (sim.sched)", "disk (sim.disk)"]
ASSUMPTIONS = [
    "Masters other than the first show what was drawn when the font is encoded or saved; "
    "drawing the first master before shows its points in all masters.",
    "Components are drawn after the glyph set has been accessed. "
    "A glyph's components are taken out of its data before they are drawn again, and are "
    "drawn at most once between two saves.",
]
TECHNIQUE = (
    "deterministic simulation: seeded schedules of interleaved pen calls, saves and faults "
    "against a reference model"
)


def gen(r, tier):
    nm = r.choice((1, 2, 2, 3, 4))
    spec = fontgen.export_spec(
        r, max_glyphs=r.choice((2, 4, 6)), nm=4 if nm == 3 else nm, curves=r.choice(("tt", "tt", "t1"))
    )
    spec["nm"] = nm
    ops = []
    for _ in range(r.choice((1, 2, 4, 8))):
        ops.append(batch(r, nm))
        for _ in range(r.choice((0, 0, 1, 1, 2, 4))):
            ops.append(step(r))
    return {"spec": spec, "ops": ops}


def batch(r, nm):
    jobs = []
    for g in r.sample(range(1000), r.choice((1, 1, 2, 3))):
        part = nm > 1 and r.random() < 0.35
        masters = list(range(nm))
        if part:
            masters = r.sample(range(1, nm), r.randint(1, nm - 1))
        r.shuffle(masters)
        jobs.append([
            g, fontgen.seed(r), int(part), masters,
            [r.randrange(4) for _ in masters], [r.randrange(3) for _ in masters],
            r.choice((0, 0, 0, 1, 2)),
        ])
    extra = []
    for _ in range(r.choice((0, 0, 1, 3))):
        extra.append([r.choice(("read", "read", "read", "abandon", "curve", "len")), r.randrange(1000),
                      r.randrange(1000)])
    mode = r.random()
    if mode < 0.3:
        sched = []  # one after the other
    elif mode < 0.5:
        sched = list(range(40))  # in turn
    else:
        sched = [r.randrange(60) for _ in range(40)]
    return ["batch", jobs, extra, sched]


def step(r):
    k = r.random()
    if k < 0.4:
        return [r.choice(("save", "save", "file"))]
    if k < 0.5:
        return [r.choice(("dec", "com", "keys"))]
    if k < 0.6:
        return [r.choice(("dece", "come")), r.randrange(1000)]
    if k < 0.68:
        return ["badsave", r.randrange(1000)]
    if k < 0.73:
        return ["full", r.random()]
    if k < 0.83:
        return ["int", r.choice(("dec", "com", "save", "keys")),
                r.choice((r.random(), r.random() * 0.1)),
                r.choice(("KeyboardInterrupt", "MemoryError"))]
    if k < 0.9:
        return [r.choice(("reload", "new"))]
    if k < 0.95:
        return ["newglyph", fontgen.seed(r)]
    return ["incompat", r.randrange(1000), r.randrange(1000)]


# ------------------------------------------------------------------ drawings


def structure(r):
    """Contours: [open, types of the points after the first]."""
    out = []
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        types = [r.choice("llq") for _ in range(r.choice((0, 1, 2, 3, 3, 5, 8)))]
        opened = int(r.random() < 0.25)
        if opened:
            while types and types[-1] == "q":
                types.pop()
        out.append([opened, types])
    return out


def structure_of(model):
    """The structure of existing outlines, if they can be drawn again, or None."""
    out = []
    for c in ufomodel.split(model.get("nodes", [])):
        if c[0]["type"] != "move" or c[0]["flags"] not in (0, 8):
            return None
        types = []
        for n in c[1:]:
            t = {"line": "l", "qcurve": "q"}.get(n["type"])
            if t is None or n["flags"]:
                return None
            types.append(t)
        opened = int(c[0]["flags"] == 8)
        if opened and types and types[-1] == "q":
            return None
        out.append([opened, types])
    return out


def coordinates(r, struct):
    """For each contour the points of one master, as they are drawn."""
    out = []
    for opened, types in struct:
        pts = []
        for t in ["l", *types]:
            while True:
                k = r.random()
                p = [r.randint(-1000, 2000), r.randint(-1000, 2000)]
                if k < 0.1:
                    p = [r.choice((0, -32768, 32767, 70000, 107, 108, -108)), 0]
                elif k < 0.4:
                    p = [x + r.choice((0, 0.25, -0.25, 0.49, -0.4)) for x in p]
                elif k < 0.5 and pts:
                    p = list(pts[-1])
                # The pens may drop a last point in the same place as the first
                if not pts or [round(x) for x in p] != [round(x) for x in pts[0]]:
                    break
            pts.append(tuple(p))
        out.append(pts)
    return out


def draw_contour(pen, kind, opened, types, pts):
    """One path, on a point pen (0), a point pen with all arguments (1) or a segment pen (2)."""
    trailing = bool(types) and types[-1] == "q"
    if kind < 2:
        kw = {"identifier": "path"} if kind else {}
        pen.beginPath(**kw)
        first = "move" if opened else "qcurve" if trailing else "line"
        pk = {"smooth": True, "name": "n", "identifier": "i"} if kind else {}
        pen.addPoint(pts[0], first, **pk)
        prev = "l"
        for t, p in zip(types, pts[1:]):
            pen.addPoint(p, None if t == "q" else "qcurve" if prev == "q" else "line", **pk)
            prev = t
        pen.endPath()
        return
    pen.moveTo(pts[0])
    off = []
    for t, p in zip(types, pts[1:]):
        if t == "q":
            off.append(p)
        elif off:
            pen.qCurveTo(*off, p)
            off = []
        else:
            pen.lineTo(p)
    if off:
        pen.qCurveTo(*off, pts[0])
    if opened:
        pen.endPath()
    else:
        pen.closePath()


def nodes_of(struct, coords):
    """The nodes for a drawing; coords: for each master for each contour the points."""
    out = []
    for c, (opened, types) in enumerate(struct):
        for j, t in enumerate(["m", *types]):
            out.append({
                "type": {"m": "move", "l": "line", "q": "qcurve"}[t],
                "flags": 8 if opened and not j else 0,
                "points": [[tuple(round(v) for v in m[c][j])] for m in coords],
            })
    return out


# ------------------------------------------------------------------ the font


class Font:
    def __init__(self, scn, rec):
        from vfbLib.vfb.vfb import Vfb

        self.rec = rec
        font = fontgen.build(scn["spec"])
        self.header = font.header
        self.ents = ref.entries_of(font)
        self.nm = scn["spec"]["nm"]
        self.ctx = font.ctx
        self.vfb = Vfb(timing=False)
        self.vfb.read_bytes(BytesIO(font.source()))
        ref.mark_auto(self.ents)
        self.held = {}  # (entry number, master) -> glyph object from earlier
        self.pending = {}  # entry number -> masters drawn since the last encoding
        self.busy = set()  # glyphs with components drawn since the last save
        self.new = {}  # entry number -> glyph object of a glyph that isn't in the glyph set yet
        self.serial = 0

    def glyphs(self):
        return [i for i, m in enumerate(self.ents) if m.eid == 2001]

    def names(self):
        return [self.ents[i].model["name"] for i in self.glyphs()]

    def forget(self):
        self.held, self.pending, self.busy, self.new = {}, {}, set(), {}

    def glyph(self, i, m, via):
        """A glyph object to draw with, obtained in one of several ways."""
        name = self.ents[i].model["name"]
        if i in self.new:
            from vfbLib.vfb.glyph import VfbGlyphMaster

            g = self.new[i]
            return g if m == 0 and via % 2 else VfbGlyphMaster(g, m)
        if via == 3 and (i, m) in self.held:
            self.rec.probe("held glyph object")
            return self.held[i, m]
        if via == 0 and m == 0:
            g = self.vfb[name]
        elif via == 1:
            g = self.vfb.get_masters()[m][name]
        else:
            g = self.vfb.getGlyphMaster(name, m)
        ref.mark_glyph_access(self.ents)
        self.held[i, m] = g
        return g

    # -------------------------------------------------------------- drawing

    def job(self, spec):
        """The steps of redrawing one glyph, one list for each master, and the new model."""
        g, seed, part, masters, vias, pens, comps = spec
        gl = self.glyphs()
        i = gl[g % len(gl)]
        model = self.ents[i].model
        if i in self.busy:
            return None
        r = Random(f"d{seed}")
        old = structure_of(model) if part else None
        if part and old is None:
            # Nothing that could be drawn again in some masters only
            masters, part = list(range(self.nm)), 0
            vias, pens = vias * self.nm, pens * self.nm
        struct = old if part else structure(r)
        if not part and comps == 2:
            struct = []
        k = gl.index(i)
        base = [b for b in range(k) if gl[b] not in self.new]
        comp = []
        if comps and base and not part and "tth" not in model:
            for _ in range(r.randint(1, 2)):
                comp.append((r.choice(base), [
                    (r.choice((1.0, 1.0, 0.5, -1.0)), 0, 0, r.choice((1.0, 2.0)),
                     r.randint(-300, 300), r.randint(-300, 300)) for _ in range(self.nm)
                ]))
        coords = {m: coordinates(r, struct) for m in masters}
        return i, part, struct, coords, comp, list(zip(masters, vias, pens))

    def steps(self, i, struct, coords, comp, m, via, kind, first):
        """Generator: performs one call sequence per step."""
        g = self.glyph(i, m, via)
        if m == 0 and comp:
            e = self.vfb.entries[i]
            e.decompile()
            e.data.pop("components", None)
        g.clearContours()
        yield
        pen = g.getPen() if kind == 2 else g.getPointPen()
        yield
        for c, (opened, types) in enumerate(struct):
            draw_contour(pen, kind, opened, types, coords[m][c])
            yield
            if first and c % 2:
                # A new pen goes on where the previous one has ended
                pen = g.getPen() if kind == 2 else g.getPointPen()
        names = self.names()
        if comp:
            self.do("keys")
            ref.mark_glyph_access(self.ents)
        for b, tr in comp:
            pen.addComponent(names[b], tr[m])
            yield

    def extra(self, x, drawn):
        """Something else that happens while glyphs are drawn."""
        from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

        kind, a, b = x
        gl = [i for i in self.glyphs() if i not in self.new]
        i = gl[a % len(gl)]
        m = b % self.nm
        model = self.ents[i].model
        if kind == "read":
            g = self.glyph(i, m, b % 3)
            seg = m == 0 and b % 3 == 0 and b % 2
            pen = RecordingPen() if seg else RecordingPointPen()
            if seg:
                g.draw(pen)
            else:
                g.drawPoints(pen)
            if i not in drawn and (i not in self.pending or m == 0 and 0 not in self.pending[i]):
                if seg:
                    want, got = ufomodel.segment_events(model, self.names()), pen.value
                else:
                    want, got = ufomodel.point_events(model, self.names(), m), events(pen.value)
                d = ufomodel.difference(want, got)
                if d:
                    raise Violation("other glyph changed", f"glyph {model['name']} master {m}: {d}")
        elif kind == "len":
            n = len(self.glyph(i, m, b % 3)) if model.get("nodes") else 0
            if i not in drawn and i not in self.pending:
                want = sum(x["type"] == "move" for x in model.get("nodes", []))
                if n != want:
                    raise Violation("contours", f"{model['name']}: {n} instead of {want}")
        elif kind in ("abandon", "curve"):
            # A path that is never ended leaves no trace
            g = self.glyph(i, m, b % 3)
            pen = g.getPointPen()
            pen.beginPath()
            pen.addPoint((a, b), "line")
            pen.addPoint((b, a), "line")
            if kind == "curve":
                try:
                    pen.addPoint((a, a), "curve")
                except Exception:
                    self.rec.probe("cubic curve rejected")
        yield

    def batch(self, op):
        _, specs, extra, sched = op
        jobs, tasks, drawn = [], [], set()
        for spec in specs:
            j = self.job(spec)
            if j is None or j[0] in drawn:
                continue
            drawn.add(j[0])
            jobs.append(j)
            for n, (m, via, kind) in enumerate(j[5]):
                tasks.append(self.steps(j[0], j[2], j[3], j[4], m, via, kind, n))
        if not jobs:
            return False
        for x in extra:
            tasks.append(self.extra(x, drawn))
        sched = list(sched)
        turns = 0
        while tasks:
            k = sched.pop(0) % len(tasks) if sched else 0
            turns += 1
            try:
                next(tasks[k])
            except StopIteration:
                del tasks[k]
        self.rec.ev("turns", turns)
        for i, part, struct, coords, comp, _ in jobs:
            m = self.ents[i]
            model = deepcopy(m.model)
            if part:
                for mm, pts in coords.items():
                    flat = [p for c in pts for p in c]
                    for node, p in zip(model["nodes"], flat):
                        node["points"][mm] = [tuple(round(v) for v in p)]
            else:
                model.pop("hints", None)
                model["nodes"] = nodes_of(struct, [coords[x] for x in range(self.nm)])
                if comp:
                    self.busy.add(i)
                    model["components"] = [
                        {"gid": b, "scaleX": [t[0] for t in tr], "scaleY": [t[3] for t in tr],
                         "offsetX": [t[4] for t in tr], "offsetY": [t[5] for t in tr]}
                        for b, tr in comp
                    ]
            self.put(i, model)
            self.pending.setdefault(i, set()).update(coords)
            self.check_first(i)
        return True

    def put(self, i, model):
        m = self.ents[i]
        m.model = model
        m.canon = fontgen.encode(2001, model, m.item.ctx)
        m.state = "dec"

    def check_first(self, i):
        """The first master is stored when it is drawn."""
        data = self.vfb.entries[i].data
        model = self.ents[i].model
        n = model["name"]
        if isinstance(data, bytes):
            raise Violation("not decoded", f"glyph {n} after it was drawn")
        def first(d):
            return [(x["type"], x["flags"], [tuple(p) for p in x["points"][0]]) for x in d["nodes"]]
        d = ufomodel.difference(first(model), first(data))
        if d:
            raise Violation("first master", f"glyph {n}: {d}")
        if len(data.get("components", ())) != len(model.get("components", ())):
            raise Violation("components", f"glyph {n}: {data.get('components')}")

    # -------------------------------------------------------------- other steps

    def encoded(self):
        self.pending = {}

    def save(self, to_file, what):
        saved = []
        for _ in range(2):
            if to_file:
                path = Path(self.rec.scratch) / "out.vfb"
                with disk.Disk(self.rec):
                    self.vfb.write(path)
                data = disk.read(path)
            else:
                buf = BytesIO()
                self.vfb.write_bytes(buf)
                data = buf.getvalue()
            payloads = ref.check_saved(data, self.ents, self.header, what)
            saved.append(data)
            ref.settle(self.ents, payloads)
        if saved[0] != saved[1]:
            raise Violation("saved twice", f"{what}: different files")
        self.encoded()
        self.busy = set()
        return saved[0]

    def reload(self, new, what):
        from vfbLib.vfb.vfb import Vfb

        data = self.save(False, what)
        if new:
            self.vfb = Vfb(timing=False)
        self.vfb.read_bytes(BytesIO(data))
        self.forget()
        ref.check_loaded(self.vfb, self.ents, what)
        ref.mark_auto(self.ents)

    def failing(self, what, f):
        try:
            f()
        except Exception as x:
            self.rec.fault("failed save")
            self.rec.ev("failed", type(x).__name__)
            return
        raise Violation("silent failure", what)

    def do(self, name):
        if name == "dec":
            self.vfb.decompile()
        elif name == "com":
            self.vfb.compile()
        elif name == "save":
            self.vfb.write_bytes(BytesIO())
        elif name == "keys":
            list(self.vfb.keys())

    def newglyph(self, seed):
        from vfbLib.vfb.entry import VfbEntry
        from vfbLib.vfb.glyph import VfbGlyph

        e = VfbEntry(self.vfb, eid=2001)
        g = VfbGlyph(e, self.vfb)
        self.serial += 1
        e.data["name"] = name = f"new{self.serial}"
        at = len(self.ents) - 1
        self.vfb.entries.insert(at, e)
        model = {"name": name, "num_masters": self.nm, "nodes": [], "metrics": [(0, 0)] * self.nm}
        if not same(model, e.data):
            raise Violation("new glyph", f"isn't empty: {where(model, e.data)}")
        ctx = deepcopy(self.ctx)
        item = fontgen.Item(2001, b"", b"", model, False, None, ctx, 0)
        m = ref.E(2001, b"", b"", model, state="dec", item=item)
        self.ents.insert(at, m)
        self.put(at, model)
        self.new[at] = g

    def incompat(self, op):
        """A drawing that doesn't fit the first master, followed by one that does."""
        if self.nm == 1:
            return False
        gl = [i for i in self.glyphs() if i not in self.busy and i not in self.pending]
        for i in gl[op[1] % len(gl):] if gl else []:
            st = structure_of(self.ents[i].model)
            if st and i not in self.new and any("l" in types for _, types in st):
                break
        else:
            return False
        m = 1 + op[2] % (self.nm - 1)
        g = self.glyph(i, m, 2)
        g.clearContours()
        pen = g.getPointPen()
        r = Random(f"i{op[1]}{op[2]}")
        bad = deepcopy(st)
        c = max(j for j, (_, types) in enumerate(st) if "l" in types)
        k = max(j for j, t in enumerate(st[c][1]) if t == "l")
        bad[c][1][k:k + 1] = "ql"
        for (opened, types), pts in zip(bad, coordinates(r, bad)):
            draw_contour(pen, 0, opened, types, pts)
        try:
            self.vfb.write_bytes(BytesIO())
        except Exception as x:
            self.rec.fault("incompatible drawing")
            self.rec.ev("failed", type(x).__name__)
        else:
            self.rec.ev("not noticed")
        # Make it good
        spec = [self.glyphs().index(i), op[1], 0, list(range(self.nm)), [2] * self.nm, [0] * self.nm, 0]
        return self.batch(["batch", [spec], [], []])


def run(scn, rec):
    f = Font(scn, rec)
    last = []
    for n, op in enumerate([*scn["ops"], ["reload"], ["final"]]):
        kind = op[0]
        what = f"op {n} {str(op)[:200]} after {last}"
        if kind == "batch":
            rec.state(f.nm, len(op[1]), tuple(tuple(j[3]) for j in op[1])[:2], tuple(last[-2:]))
            if not f.batch(op):
                continue
        elif kind in ("save", "file"):
            f.save(kind == "file", what)
        elif kind == "com":
            f.vfb.compile()
            f.encoded()
        elif kind in ("dec", "keys"):
            f.do(kind)
            for m in f.ents:
                if kind == "dec":
                    m.state = "dec"
            if kind == "keys":
                ref.mark_glyph_access(f.ents)
        elif kind == "dece":
            i = op[1] % len(f.ents)
            f.vfb.entries[i].decompile()
            f.ents[i].state = "dec"
        elif kind == "come":
            i = op[1] % len(f.ents)
            f.vfb.entries[i].compile()
            f.pending.pop(i, None)
        elif kind == "badsave":
            i = op[1] % len(f.ents)
            if f.ents[i].eid in (10, 2001):
                continue
            e = f.vfb.entries[i]
            old = e.data
            e.data = Unencodable()
            f.failing(what, lambda: f.vfb.write_bytes(BytesIO()))
            e.data = old
        elif kind == "full":
            f.failing(what, lambda: f.vfb.write_bytes(FailingBuffer(int(op[1] * 300))))
        elif kind == "int":
            error = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op[3]]
            it = Interrupt(1 + int(op[2] * 3000), error)
            try:
                it(f.do, op[1])
            except error:
                pass
            if it.fired:
                rec.fault(op[3])
            for m in f.ents:
                if m.state == "raw":
                    m.state = "maybe"
            rec.ev(n, it.fired)
        elif kind in ("reload", "new"):
            f.reload(kind == "new", what)
        elif kind == "newglyph":
            f.newglyph(op[1])
        elif kind == "incompat":
            if not f.incompat(op):
                continue
        elif kind == "final":
            f.vfb.decompile()
            for i, m in enumerate(f.ents):
                ref.check_model(f.vfb.entries[i], m, i, what)
        last = [*last[-3:], kind if kind != "int" else f"int {op[1]}"]
        rec.ev(n, kind)
