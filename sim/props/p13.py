"""P13: a partial load agrees with the full load."""

from copy import deepcopy
from io import BytesIO
from pathlib import Path
from random import Random

from .. import disk, fontgen, obs, ref, ufomodel
from ..core import Violation
from ..sched import Interrupt
from .p02 import assign

ID = "P13"
LEVEL = "exploration"
RUNS = {"quick": 11000, "thorough": 120000}
RULE = (
    "A random font and random load options: a set of dropped entry types, minimal mode, only "
    "the header; loaded from a file, buffer or stream with short and interrupted reads, with "
    "the dropped entries damaged in part of the runs. Its entries are compared with the "
    "reference model, and all that is done with it afterwards (decoding, encoding, glyph "
    "access, drawing, hint resolution, edits, saves, failed saves, interrupted calls, "
    "reloads, loads with other options, types dropped after the load, exports) is done in step with a full load from which the "
    "dropped entries have been removed: results, errors and saved bytes must be the same."
)
STATES = "distinct (options, last two steps, step) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo", "ufoLib2"]
STUB = ["clock", "input streams and disk (short reads, interruptions)", "interruption (sim.sched)"]
ASSUMPTIONS = [
    "Dropped entries that carry context for others (writer version, number of masters, "
    "TrueType stems) are intact.",
]
STEPS = ("dec", "com", "dece", "come", "edit", "save", "badsave", "int", "reload", "again", "access",
         "drawn", "content", "upm", "raw", "export", "export", "same", "late")
SAFE = {*fontgen.EXPORT_FONT, 1276, 1277, 1247, 1254, 1294, 1296, 1295, 2008, 2007, 2013, 2023, 2019,
        2010, 2009, 1250, 1253, 2012, 2015, 2017, 2018, 2020, 2029, 2031}


def options(r, spec):
    present = [e[0] for e in spec["entries"]] + [1, 10, 1503]
    k = r.random()
    if k < 0.3:
        # Nothing that an export needs
        drop = [i for i in sorted(set(present)) if i in SAFE and r.random() < r.choice((0.1, 0.5, 1))]
    elif k < 0.36:
        drop = []
    elif k < 0.5:
        drop = [r.choice(present) for _ in range(r.choice((1, 1, 2, 3)))]
    elif k < 0.6:
        drop = [r.choice((10, 1503, 1269, 2, 2001, 2008, 1093, 1135, 1513)) for _ in range(2)]
    elif k < 0.7:
        # All but a few
        keep = {r.choice(present) for _ in range(r.choice((1, 2, 4)))}
        drop = [i for i in present if i not in keep]
    else:
        drop = [i for i in sorted(set(present)) if r.random() < 0.4]
    if r.random() < 0.3:
        drop.append(r.choice((4711, 1, 2026, 65000)))
    return {"drop": sorted(set(drop)), "minimal": int(r.random() < 0.3),
            "header": int(r.random() < 0.06)}


def gen(r, tier):
    spec = fontgen.export_spec(r, max_glyphs=4) if r.random() < 0.8 else fontgen.wild_spec(
        r, max_font=8, max_glyphs=3)
    ops = []
    for _ in range(r.choice((1, 3, 6, 12))):
        k = r.choice(STEPS)
        if k == "int":
            ops.append([k, r.choice(("dec", "com", "save", "keys")),
                        r.choice((r.random(), r.random() * 0.1)),
                        r.choice(("KeyboardInterrupt", "MemoryError"))])
        elif k == "again":
            ops.append([k, options(r, spec), r.choice(("path", "bytes", "stream"))])
        elif k == "export":
            ops.append([k, r.randrange(20)])
        else:
            ops.append([k, r.randrange(1000), fontgen.seed(r)])
    return {"spec": spec, "opts": options(r, spec), "how": r.choice(("path", "bytes", "stream")),
            "kind": r.randrange(3), "damage": fontgen.seed(r) if r.random() < 0.4 else 0, "ops": ops}


def damaged(font, drop, seed):
    """The file, with other data in entries that are dropped."""
    if not seed:
        return font.source()
    r = Random(f"dmg{seed}")
    items = font.items
    font.items = []
    for it in items:
        it2 = it
        if it.eid in drop and it.eid not in (10, 1503, 1269) and r.random() < 0.7:
            n = len(it.src) if it.eid == 1410 or r.random() < 0.3 else r.randint(0, 40)
            src = r.randbytes(n)
            it2 = fontgen.Item(it.eid, src, src, None, it.long, it.declared, it.ctx, it.gi)
        font.items.append(it2)
    out = font.source()
    font.items = items
    return out


class Pair:
    """The partially loaded font, and the full one without the dropped entries."""

    def __init__(self, scn, rec):
        self.scn = scn
        self.rec = rec
        self.font = fontgen.build(scn["spec"])
        self.a = self.b = None
        self.seen = False

    def load(self, opts, how):
        """Load with these options; None: with the options the object already has."""
        from vfbLib.vfb.vfb import Vfb

        same = opts is None
        self.opts = opts = opts or self.opts
        drop = set(opts["drop"])
        given = (set, frozenset, set)[self.scn["kind"]](drop)
        minimal, header = bool(opts["minimal"]), bool(opts["header"])
        data = damaged(self.font, drop, self.scn["damage"])
        path = Path(self.rec.scratch) / "in.vfb"
        disk.write(path, data)
        sel = self.scn["damage"] % 1000 + len(data)
        with disk.Disk(self.rec, {"soft": 0.4, "seed": sel} if how == "path" else None):
            if self.a is None:
                kw = {"timing": False, "drop_keys": given, "only_header": header, "minimal": minimal}
                if how == "path":
                    self.a = Vfb(path, **kw)
                else:
                    self.a = Vfb(**kw)
            else:
                if not same:
                    self.a.drop_keys = set(given)
                    self.a.only_header, self.a.minimal = header, minimal
                if how == "path":
                    self.a.vfb_path = path
                    self.a.read()
            if how == "bytes":
                self.a.read_bytes(BytesIO(data))
            elif how == "stream":
                self.a.read_bytes(disk.buffered(disk.SimStream(data, self.rec, sel, soft=0.5), 64))
        if set(given) != drop:
            raise Violation("option changed", f"the set of dropped types is now {given}")
        if isinstance(given, set):
            given.clear()  # what the caller does with the set later makes no difference
        self.b = Vfb(timing=False)
        self.b.read_bytes(BytesIO(self.font.source()))
        ents = ref.entries_of(self.font)
        keep = [i for i, m in enumerate(ents) if m.eid not in drop]
        if header:
            keep = []
        self.b.entries[:] = [self.b.entries[i] for i in keep]
        self.ents = [ents[i] for i in keep]
        if header:
            for v in ("num_masters", "ttStemsV_count", "ttStemsH_count"):
                setattr(self.b, v, 0)
            self.b.writer_platform, self.b.encoding = "macos", "utf-8"
        ref.check_loaded(self.a, self.ents)
        ref.mark_auto(self.ents)
        ref.check_raw(self.a, self.ents)
        self.a.header.decompile()
        if not all(self.a.header.data.get(k) == v for k, v in self.font.header.items()):
            raise Violation("header", f"{self.a.header.data} instead of {self.font.header}")
        self.compare("raw", "load")

    def both(self, what, f):
        """Do the same with both, and compare the results."""
        x, y = obs.attempt(f, self.a), obs.attempt(f, self.b)
        d = obs.differ(x, y)
        if d:
            raise Violation("differs from the full load", f"{what}: {d}")
        return x

    def compare(self, step, what):
        self.b.header.decompile()
        self.a.header.decompile()
        return self.both(f"{what}: {step}", obs.STEPS[step])

    def check(self, what):
        for i, m in enumerate(self.ents):
            e = self.a.entries[i]
            if isinstance(e.data, (bytes, bytearray)):
                if bytes(e.data) not in m.allowed():
                    raise Violation("entry bytes", f"{what}: entry {i} ({m.eid})")
            else:
                ref.check_model(e, m, i, what)

    def save(self, what):
        def f(vfb):
            buf = BytesIO()
            vfb.write_bytes(buf)
            return buf.getvalue()

        data = self.both(what, f)
        if isinstance(data, bytes) and not self.opts["header"]:
            ref.settle(self.ents, ref.check_saved(data, self.ents, self.font.header, what))
        return data


def hints(vfb):
    out = []
    for n in list(vfb.keys())[:4]:
        g = vfb[n]
        out.append((obs.attempt(g.resolve_hints), obs.attempt(g.resolve_hint_sets),
                    g.links_entry is not None, g.ps_hinting_options is not None))
    return out


def export(p, bits, what):
    """An export in the mode of the load."""
    opts = {"base64": bool(bits & 1), "pshints": not bits & 2, "add_kerning_groups": bool(bits & 4),
            "move_groups": not bits & 8, "minimal": bool(bits & 16) != bool(p.opts["minimal"])}
    for v in (p.a, p.b):
        v.decompile()
    for m in p.ents:
        m.state = "dec"
    if p.opts["minimal"]:
        # The full font without what minimal mode leaves out
        from vfbLib.vfb.vfb import Vfb

        full = Vfb(timing=False)
        full.entries = [e for e in p.b.entries if e.id not in SKIPPED]
        for v in ("num_masters", "ttStemsV_count", "ttStemsH_count", "encoding", "writer_platform"):
            setattr(full, v, getattr(p.b, v))
    else:
        full = p.b
    x = obs.attempt(obs.export, p.a, **opts)
    y = obs.attempt(obs.export, full, **opts)
    d = obs.differ(x, y)
    if d:
        raise Violation("export differs from the full load", f"{what}: {d}")
    p.rec.probe("export failed" if isinstance(x, tuple) else "exported")


# What minimal mode leaves out: global guides, global mask, font note, bitmaps, guide
# properties, background image, mark, mask and note
SKIPPED = frozenset((1294, 1295, 2025, 2013, 2031, 2007, 2012, 2009, 2017))


def run(scn, rec):
    p = Pair(scn, rec)
    p.load(scn["opts"], scn["how"])
    tag = None
    last = []
    for n, op in enumerate([*scn["ops"], ["dec", 0, 0], ["save", 0, 0]]):
        kind = op[0]
        what = f"op {n} {str(op)[:150]} after {last}, {str(p.opts)[:200]}"
        o = p.opts
        tag = (min(len(o["drop"]), 6), o["minimal"], o["header"])
        rec.state(tag, tuple(last[-2:]), kind)
        ne = len(p.ents)
        if kind in ("dec", "com"):
            p.both(what, lambda v: v.decompile() if kind == "dec" else v.compile())
            if kind == "dec":
                for m in p.ents:
                    m.state = "dec"
            p.check(what)
        elif kind in ("dece", "come"):
            if not ne:
                continue
            i = op[1] % ne
            p.both(what, lambda v: getattr(v.entries[i], "decompile" if kind == "dece" else "compile")())
            if kind == "dece":
                p.ents[i].state = "dec"
                ref.check_model(p.a.entries[i], p.ents[i], i, what)
        elif kind == "edit":
            free = [i for i, m in enumerate(p.ents) if m.eid not in (1, 10, 1503, 1269, 2)]
            if not free:
                continue
            i = free[op[1] % len(free)]
            m = p.ents[i]
            model, canon = fontgen.content(m.eid, op[2], m.item.ctx)
            if m.eid == 2001 and m.model.get("name"):
                model["name"] = m.model.get("name")
                canon = fontgen.encode(2001, model, m.item.ctx)
            m.model, m.canon, m.state = model, canon, "dec"
            for v in (p.a, p.b):
                e = v.entries[i]
                e.decompile()
                if not assign(e.data, model):
                    e.data = deepcopy(model)
        elif kind == "save":
            p.save(what)
        elif kind == "badsave":
            if not ne:
                continue
            i = op[1] % ne
            if p.ents[i].eid == 10:
                continue
            for v in (p.a, p.b):
                v.entries[i].decompile()
            p.ents[i].state = "dec"
            keep = [v.entries[i].data for v in (p.a, p.b)]
            for v in (p.a, p.b):
                v.entries[i].data = object()
            x = p.save(what)
            if isinstance(x, bytes):
                raise Violation("silent failure", what)
            rec.fault("failed save")
            for v, k in zip((p.a, p.b), keep):
                v.entries[i].data = k
        elif kind == "int":
            error = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op[3]]
            f = {"dec": lambda v: v.decompile(), "com": lambda v: v.compile(),
                 "save": lambda v: v.write_bytes(BytesIO()), "keys": lambda v: list(v.keys())}[op[1]]
            fired = []
            for v in (p.a, p.b):
                it = Interrupt(1 + int(op[2] * 3000), error)
                try:
                    it(f, v)
                except error:
                    pass
                except Exception as x:
                    rec.ev("failed", type(x).__name__)
                fired.append(it.fired)
            if fired[0]:
                rec.fault(op[3])
            for m in p.ents:
                if m.state == "raw":
                    m.state = "maybe"
            # Bring both in the same state again
            for v in (p.a, p.b):
                v.decompile()
            for m in p.ents:
                m.state = "dec"
            p.check(what)
        elif kind == "reload":
            if ref.AUTO & set(p.opts["drop"]):
                continue  # the saved file lacks the context of its entries
            data = p.save(what)
            if not isinstance(data, bytes):
                continue
            header = p.opts["header"]
            for v in (p.a, p.b):
                v.read_bytes(BytesIO(data))
            if not header:
                ref.check_loaded(p.a, p.ents, what)
                ref.mark_auto(p.ents)
            else:
                continue
        elif kind == "late":
            # Types that are dropped after loading are still there, but not decoded
            r = Random(f"late{op[2]}")
            present = sorted({m.eid for m in p.ents})
            late = set(r.sample(present, min(len(present), r.randint(1, 3))))

            def rest(v):
                v.any_errors = False
                v.header.decompile()
                for e in v.entries:
                    if e.id not in late:
                        e.decompile()

            p.a.drop_keys = set(o["drop"]) | late
            raw = [isinstance(e.data, (bytes, bytearray)) for e in p.a.entries]
            x, y = obs.attempt(lambda: p.a.decompile()), obs.attempt(rest, p.b)
            if d := obs.differ(x, y):
                raise Violation("differs from the full load", f"{what}: {d}")
            p.a.drop_keys = set(o["drop"])
            for i, m in enumerate(p.ents):
                if m.eid not in late:
                    m.state = "dec"
                elif raw[i] != isinstance(p.a.entries[i].data, (bytes, bytearray)):
                    raise Violation("decoded a dropped type", f"{what}: entry {i} ({m.eid})")
            p.check(what)
        elif kind == "again":
            p.load(op[1], op[2])
        elif kind == "export":
            export(p, op[1], what)
        elif kind == "same":
            p.load(None, ("path", "bytes", "stream")[op[1] % 3])
        elif kind == "access":
            p.compare(kind, what)
            ref.mark_glyph_access(p.ents)
            p.both(what, hints)
        else:
            p.compare(kind, what)
            if kind == "drawn":
                ref.mark_glyph_access(p.ents)
            elif kind == "upm":
                for m in p.ents:
                    if m.eid == 1135 and m.state == "raw":
                        m.state = "maybe"
        last = [*last[-2:], kind]
        rec.ev(n, kind)
