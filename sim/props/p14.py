"""P14: interrupting an operation leaves nothing half done."""

from copy import deepcopy
from io import BytesIO
from pathlib import Path

from .. import disk, fontgen, obs, ref
from ..core import Violation
from ..sched import Interrupt, alone
from ..wire import same, where
from .p02 import assign

ID = "P14"
LEVEL = "fault_enumeration"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = (
    "A random font with random entries decoded, edited, or drawn into, and up to 6 "
    "operations (load, decode, encode, single entries, save, glyph access, drawing, hints, "
    "export, JSON) that are interrupted by KeyboardInterrupt or MemoryError at a random line "
    "of library code among those which the operation executes (counted in a dry run), each "
    "repeated once, several times, later, or never; then everything observable of the font "
    "is compared with a font that was never interrupted."
)
STATES = "distinct (operation, interrupted function, error) triples"
REAL = ["vfbLib", "ufoLib2"]
STUB = ["interruption (sim.sched)", "clock"]
ASSUMPTIONS = [
    "Interruptions arrive between two lines of vfbLib code.",
    "After an interrupted load, the font is loaded again before it is used.",
]
OPS = ("load", "dec", "dec", "dece", "com", "com", "come", "save", "save", "file", "keys", "keys",
       "glyph", "drawn", "hints", "export", "json", "upm")
ERRORS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def gen(r, tier):
    spec = fontgen.wild_spec(r, max_glyphs=4, max_font=6) if r.random() < 0.45 else (
        fontgen.export_spec(r, max_glyphs=4))
    ops = []
    for _ in range(r.choice((0, 1, 3))):
        k = r.random()
        if k < 0.3:
            ops.append(["prep", "dec"])
        elif k < 0.6:
            ops.append(["prep", "dece", r.randrange(1000)])
        elif k < 0.9:
            ops.append(["prep", "set", r.randrange(1000), fontgen.seed(r)])
        else:
            ops.append(["prep", "keys"])
    for _ in range(r.choice((1, 2, 6))):
        k = r.random()
        # Early, late and any positions
        at = r.random() if k < 0.7 else r.random() * 0.05 if k < 0.85 else 1 - r.random() * 0.02
        ops.append(["int", r.choice(OPS), r.randrange(1000), at, r.choice(list(ERRORS)),
                    r.choice(("again", "again", "again", "twice", "no"))])
        if r.random() < 0.3:
            ops.append(["prep", "set", r.randrange(1000), fontgen.seed(r)])
        if r.random() < 0.2:
            ops.append(["prep", r.choice(("dec", "keys"))])
    return {"spec": spec, "ops": ops, "how": r.choice(("path", "bytes"))}


class Font:
    def __init__(self, scn, rec):
        from vfbLib.vfb.vfb import Vfb

        self.rec = rec
        self.how = scn["how"]
        self.font = fontgen.build(scn["spec"])
        self.ents = ref.entries_of(self.font)
        self.path = Path(rec.scratch) / "in.vfb"
        self.source = self.font.source()
        disk.write(self.path, self.source)
        self.vfb = Vfb(timing=False)
        self.exportable = bool(scn["spec"].get("export"))
        self.load()
        ref.mark_auto(self.ents)

    def load(self):
        if self.how == "path":
            self.vfb.vfb_path = self.path
            self.vfb.read()
        else:
            self.vfb.read_bytes(BytesIO(self.source))

    def op(self, name, x):
        """The operation and, unless interrupted, its result."""
        vfb = self.vfb
        if name == "load":
            return self.load()
        if name == "dec":
            return vfb.decompile()
        if name == "dece":
            return vfb.entries[x % len(vfb.entries)].decompile()
        if name == "com":
            return vfb.compile()
        if name == "come":
            return vfb.entries[x % len(vfb.entries)].compile()
        if name == "save":
            buf = BytesIO()
            vfb.write_bytes(buf)
            return buf.getvalue()
        if name == "file":
            out = Path(self.rec.scratch) / "out.vfb"
            vfb.write(out)
            return disk.read(out)
        if name == "keys":
            return list(vfb.keys())
        if name == "glyph":
            names = list(vfb.keys())
            if not names:
                return None
            return obs.plain(vfb[names[x % len(names)]].entry.data)
        if name == "drawn":
            # Without the error handling of obs.drawn
            from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

            out = []
            for n in list(vfb.keys())[:4]:
                p, q = RecordingPen(), RecordingPointPen()
                if drawable(vfb, n):
                    vfb[n].draw(p)
                    vfb[n].drawPoints(q)
                out.append((p.value, q.value))
            return out
        if name == "hints":
            return [vfb[n].resolve_hint_sets() for n in list(vfb.keys())[:4]
                    if vfb[n].entry.data.get("hints", {}).get("hintmasks") is None
                    and vfb[n].links_entry is None]
        if name == "export":
            return obs.export(vfb)
        if name == "json":
            from vfbLib.json import write_vfb_json

            out = Path(self.rec.scratch) / "out.json"
            write_vfb_json(vfb, out)
            return disk.read(out)
        if name == "upm":
            return vfb.info.unitsPerEm

    def mark(self, name, x, complete):
        """What the operation may have decoded."""
        ents = self.ents
        if name == "load":
            for m in ents:
                m.state = "raw"
            ref.mark_auto(ents)
        elif name == "dec":
            for m in ents:
                m.state = "dec" if complete else "maybe" if m.state == "raw" else m.state
        elif name == "dece":
            m = ents[x % len(ents)]
            m.state = "dec" if complete else "maybe" if m.state == "raw" else m.state
        elif name in ("keys", "glyph", "drawn", "hints"):
            ref.mark_glyph_access(ents)
        elif name == "upm":
            for m in ents:
                if m.eid == 1135 and m.state == "raw":
                    m.state = "maybe"

    def check(self, what):
        if [e.id for e in self.vfb.entries] != [m.eid for m in self.ents]:
            raise Violation("entries", what)
        for i, (e, m) in enumerate(zip(self.vfb.entries, self.ents)):
            if isinstance(e.data, (bytes, bytearray)):
                if bytes(e.data) not in m.allowed():
                    raise Violation("half done entry", f"{what}: entry {i} ({m.eid}, {m.state}): "
                                    f"{bytes(e.data)[:40].hex()} instead of {m.allowed()[-1][:40].hex()}")
            elif not same(m.model, e.data):
                raise Violation("half done entry", f"{what}: entry {i} ({m.eid}): {where(m.model, e.data)}")


def drawable(vfb, n):
    d = vfb[n].entry.data
    k = len(vfb.glyph_order)
    return all(c["gid"] < k for c in d.get("components", ())) and all(
        len(x["points"]) == vfb.num_masters for x in d["nodes"])


def run(scn, rec):
    from vfbLib.vfb.vfb import Vfb

    f = Font(scn, rec)
    edited = False
    for n, op in enumerate(scn["ops"]):
        what = f"op {n} {op}"
        free = [i for i, m in enumerate(f.ents) if m.eid not in (1, 10, 1503, 1269, 2)]
        if op[0] == "prep":
            if op[1] == "set":
                if not free:
                    continue
                i = free[op[2] % len(free)]
                m, e = f.ents[i], f.vfb.entries[i]
                model, canon = fontgen.content(m.eid, op[3], m.item.ctx)
                e.decompile()
                if not assign(e.data, model):
                    e.data = deepcopy(model)
                m.model, m.canon, m.state = model, canon, "dec"
                edited = True
            else:
                f.op(op[1], op[2] if len(op) > 2 else 0)
                f.mark(op[1], op[2] if len(op) > 2 else 0, True)
            f.check(what)
            rec.ev(n, *op)
            continue
        _, name, x, at, error, then = op
        if name in ("export", "drawn") and (edited or not f.exportable):
            # Random content can't always be exported
            continue
        if name == "export":
            f.vfb.decompile()
            f.mark("dec", x, True)
        if name == "json":
            f.vfb.decompile()
            f.mark("dec", x, True)
        if name == "load" and edited:
            continue
        dry = Interrupt(None, None)
        total = alone(lambda: (dry(f.op, name, x), dry.n)[1])
        if total[0] != "ok":
            # Not every content can be drawn or resolved
            if name in ("hints", "drawn", "export", "glyph"):
                continue
            raise Violation("operation failed", f"{what}: {total[1:]}")
        if total[1] == 0:
            continue
        expected = alone(lambda: plainly(f.op(name, x)))
        for _ in range({"again": 1, "twice": 2, "no": 1}[then]):
            k = 1 + int(at * total[1])
            it = Interrupt(min(k, total[1]), ERRORS[error])
            try:
                it(f.op, name, x)
            except ERRORS[error]:
                pass
            if it.fired is None:
                rec.probe("interruption after the end")
            else:
                rec.fault(error)
                rec.state(name, it.fired, error)
            rec.ev(n, name, x, min(k, total[1]), total[1], error, it.fired)
            if name == "load":
                break
            f.mark(name, x, False)
            f.check(f"{what}, interrupted in {it.fired}")
        if name == "load":
            half_loaded(f, what)
        if then != "no" or name == "load":
            got = plainly(f.op(name, x))
            f.mark(name, x, True)
            d = None if name in ("save", "file") else obs.differ(expected[1], got)
            if d:
                raise Violation("repeated operation differs", f"{what}: {d}")
            if name in ("save", "file"):
                ref.settle(f.ents, ref.check_saved(got, f.ents, f.font.header, what))
            f.check(f"{what}, repeated")
    # Everything observable is as in a font that was never interrupted
    saved = ref.save(f.vfb, "bytes", rec.scratch)
    ref.check_saved(saved, f.ents, f.font.header, "at the end")
    new = Vfb(timing=False)
    new.read_bytes(BytesIO(saved))
    f.vfb.decompile()
    new.decompile()
    steps = ["access", "drawn", "content", "save", "decode"]
    if f.exportable and not edited:
        steps.append("export")
    want, got = obs.observe(new, steps), obs.observe(f.vfb, steps)
    d = obs.differ(want, got)
    if d:
        raise Violation("interrupted font differs", d)
    if f.vfb.any_errors:
        raise Violation("interrupted font differs", "any_errors")
    rec.ev("end", obs.digest(obs.dumps(got)))


def plainly(x):
    return x if isinstance(x, (bytes, type(None), int)) else obs.plain(x)


def half_loaded(f, what):
    """An interrupted load: the first entries, complete, or the previous content."""
    ents = f.ents
    for i, (e, m) in enumerate(zip(f.vfb.entries, ents)):
        if e.id != m.eid:
            raise Violation("entries", f"{what}: entry {i} is {e.id} instead of {m.eid}")
        if isinstance(e.data, (bytes, bytearray)):
            if bytes(e.data) not in (m.item.src, m.canon):
                raise Violation("half done entry", f"{what}: entry {i} ({m.eid}): {bytes(e.data)[:40].hex()}")
        elif not same(m.model, e.data):
            raise Violation("half done entry", f"{what}: entry {i} ({m.eid}): {where(m.model, e.data)}")
    # The load is repeated: as the file stores it
    for m in ents:
        m.src = m.item.src
        m.state = "raw"


