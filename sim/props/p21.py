"""P21: font info, libs and notes keep their meaning in the export."""

from pathlib import Path

from .. import fontgen, gens, infomodel
from ..core import Violation
from ..ufomodel import difference
from . import p15

ID = "P21"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 80000}
RULE = (
    "A random exportable font (1, 2 or 4 masters) with many font info, TrueType and custom data "
    "entries, and a random history of up to 16 edits (whole entries, single values, entries "
    "removed, added or repeated), decodings, encodings, saves, failed saves, interrupted calls, "
    "reloads and earlier exports; after some of the steps and at the end the font info, font lib, "
    "glyph libs and notes of all exported masters are compared with a reference model."
)
STATES = "distinct (last three kinds of steps, observation, masters, outline type) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo", "ufoLib2"]
STUB = ["interruption (sim.sched)", "clock"]
ASSUMPTIONS = [
    "All entries are decoded before an export, as the converters do.",
    "Values are in the range of the UFO attribute they are exported to.",
    "Entries 1028 (weight), 1065 (width), 1132 (year) and 1127 (style_name), which have no exact "
    "counterpart in UFO 3, are not compared.",
]
INFO = [*infomodel.PLAIN, *infomodel.BLUES, 2025, 1024, 1137, 1034, 1048, 1030, 1031, 1138, 1265,
        1267, 1264, 2016, 2024, 1272, 1274, 1275, 1604, 1261, 1262, 1263]
GLYPH = (2012, 2015, 2017, 2007, 2013)


def gen(r, tier):
    spec = fontgen.export_spec(r, max_glyphs=r.choice((1, 2, 4)))
    entries = spec["entries"]
    have = {e[0] for e in entries}
    new = [i for i in INFO if i not in have]
    for i in r.sample(new, r.randint(0, min(len(new), r.choice((3, 12, 60))))):
        at = r.randrange(next(j for j, e in enumerate(entries) if e[0] == 2001) + 1)
        entries.insert(at, [i, fontgen.seed(r), r.choice((0, 0, 1)), 0])
    for j in range(len(entries) - 1, -1, -1):
        if entries[j][0] == 2001 and r.random() < 0.6:
            after = {e[0] for e in entries[j + 1 : j + 8]}
            for i in r.sample(GLYPH, r.randint(1, 3)):
                if i not in after:
                    entries.insert(j + 1, [i, fontgen.seed(r), r.choice((0, 0, 1)), 0])
    ops = []
    for _ in range(r.choice((0, 1, 3, 6, 10, 16))):
        k = r.random()
        if k < 0.25:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
        elif k < 0.5:
            ops.append([r.choice(("ps", "ps", "tt", "tt", "tt", "rm", "new", "ren", "dup", "pt")),
                        r.randrange(1000), r.randrange(1000), r.randrange(1000),
                        r.randint(-300, 900), r.randint(-300, 900)])
        elif k < 0.64:
            ops.append([r.choice(("dec", "com", "save", "save", "keys"))])
        elif k < 0.7:
            ops.append([r.choice(("dece", "come", "badsave", "badsave")), r.randrange(1000)])
        elif k < 0.76:
            ops.append(["int", r.choice(("dec", "com", "save", "export", "export")),
                        r.choice((r.random(), r.random() * 0.1)),
                        r.choice(("KeyboardInterrupt", "MemoryError"))])
        elif k < 0.82:
            ops.append([r.choice(("reload", "fresh"))])
        else:
            ops.append(["export", r.randrange(64)])
    return {"spec": spec, "ops": ops, "last": r.randrange(64)}


class Font(p15.Font):
    def edit(self, op):
        kind, a, b, c, v, w = op
        if kind == "ps":
            i = [j for j, x in enumerate(self.ents) if x.eid == 1536][a % self.nm]
            for x in (self.ents[i].model, self.data(i)):
                keys = sorted(set(x) - {"font_matrix", "bounding_box"})
                key = keys[b % len(keys)]
                if isinstance(x[key], list):
                    x[key][c % len(x[key])] = abs(v)
                elif key == "blue_scale":
                    x[key] = float(v)
                else:
                    x[key] = abs(v) if key.startswith(("std_", "blue_")) else v
            return True
        if kind == "tt":
            f = [j for j, x in enumerate(self.ents) if x.eid == 1264]
            if not f:
                return False
            i = f[a % len(f)]
            new = gens.g_ttinfo(fontgen.rng([1264, v]), self.ents[i].item.ctx, False)
            keys = sorted(new)
            key = keys[b % len(keys)]
            if c % 8 == 0 and not isinstance(new[key], (list, dict)) and "width_class" not in key:
                new[key] = 0
            elif c % 8 == 1:
                if key == "os2_fs_type":
                    new[key] = w * 109
                elif key == "head_creation":
                    new[key] = -w * 10**6
            for x in (self.ents[i].model, self.data(i)):
                x[key] = new[key]
            return True
        if kind in ("rm", "new"):
            f = [j for j, x in enumerate(self.ents) if x.eid in INFO]
            if not f:
                return False
            i = f[a % len(f)]
            m = self.ents[i]
            if kind == "rm":
                if m.eid == 1135:
                    return False
                del self.vfb.entries[i]
                del self.ents[i]
                return True
            return self.insert(i, m, v)
        return super().edit(op)

    def insert(self, i, m, seed):
        """One more entry of the same kind, with other content: the last one counts."""
        from vfbLib.vfb.entry import VfbEntry

        model, _ = fontgen.content(m.eid, seed, m.item.ctx)
        canon = fontgen.encode(m.eid, model, m.item.ctx)
        e = VfbEntry(self.vfb, eid=m.eid)
        e.data = canon
        self.vfb.entries.insert(i + 1, e)
        item = fontgen.Item(m.eid, canon, canon, model, False, None, m.item.ctx, m.item.gi)
        self.ents.insert(i + 1, type(m)(m.eid, canon, canon, model, item=item))
        return True

    def whole(self, op):
        pool = [i for i, m in enumerate(self.ents) if m.eid in (*INFO, *GLYPH, 1536)]
        i = pool[op[1] % len(pool)]
        m = self.ents[i]
        model, _ = fontgen.content(m.eid, op[2], m.item.ctx)
        self.put(i, model)
        return True

    def do(self, name):
        if name == "export":
            self.vfb.decompile()
            b, _ = self.builder(0)
            b.get_ufos_designspace(Path("out.ufo"), silent=True)
        else:
            super().do(name)

    def check_export(self, options, what):
        self.vfb.decompile()
        b, opts = self.builder(options)
        content = self.content()
        minimal = opts["minimal"]
        for _ in range(2 if options & 32 else 1):
            ufos, ds = b.get_ufos_designspace(Path("out.ufo"), silent=True)
            d = ds and infomodel.designspace_differs(content, ds)
            if d:
                raise Violation("designspace differs", f"{what}: {d}")
            self.rec.probe("designspace" if ds else "no designspace")
            for m, ufo in enumerate(ufos):
                for name, want, got in (
                    ("info", infomodel.info(content, m, self.vfb.minimal, opts["pshints"]),
                     infomodel.real_info(ufo.info)),
                    ("lib", infomodel.lib(content, minimal), infomodel.real_lib(ufo.lib)),
                    ("glyph data", infomodel.glyphs(content, self.vfb.minimal, ufo),
                     infomodel.real_glyphs(ufo)),
                ):
                    d = difference(want, got)
                    if d:
                        raise Violation(f"{name} differs", f"{what}: master {m}: {d}")


def run(scn, rec):
    f = Font(scn, rec)
    p15.play(f, [*scn["ops"], ["export", scn["last"]]], rec,
             {"fresh": lambda op, what, last: f.reload(True)})
