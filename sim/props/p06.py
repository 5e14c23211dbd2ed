"""P06: a reused object behaves like a new one."""

from io import BytesIO
from pathlib import Path

from .. import disk, fontgen, obs, ref
from ..core import Violation
from .p02 import assign
from .p03 import Unencodable
from .p04 import damaged

ID = "P06"
LEVEL = "exploration"
RUNS = {"quick": 7500, "thorough": 40000}
RULE = (
    "One Vfb object loads up to four random fonts (or the font under test itself) in turn, "
    "from the same or another place, each followed by a random "
    "sequence of uses (decode, glyph access, drawing, edits, save, export, failed loads of "
    "damaged files, uses that fail because of damaged or unencodable entries, clear) and finally the font under test; everything observable of it, in "
    "a random order of observation, equals that of a new object. The same for VfbEntry "
    "objects that read several entries."
)
STATES = "distinct (previous uses, first observation, kind of fonts) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo"]
STUB = ["clock"]
ASSUMPTIONS = ["Options set by the user are not part of the comparison."]
USES = ("dec", "keys", "draw", "upm", "edit", "save", "export", "pen", "partial", "fail", "clear", "masters",
        "baddec", "badkeys", "badsave", "hints", "json", "quadratic", "reread")
OBS = ("raw", "access", "upm", "drawn", "decode", "content", "save", "export", "quadratic")


def some_font(r):
    if r.random() < 0.5:
        return fontgen.wild_spec(r, max_glyphs=3, max_font=6)
    return fontgen.export_spec(r, max_glyphs=3)


def gen(r, tier):
    history = [
        # No font is the font under test
        [some_font(r) if r.random() < 0.75 else None,
         [r.choice(USES) for _ in range(r.randint(0, 4))],
         r.choice(("path", "bytes")), fontgen.seed(r)]
        for _ in range(r.choice((1, 1, 2, 3)))
    ]
    steps = [r.choice(OBS) for _ in range(r.randint(1, 4))]
    steps += ["decode", "content", "save"]
    return {
        "history": history, "spec": some_font(r), "how": r.choice(("path", "bytes")),
        "observe": steps,
        "options": {"minimal": r.random() < 0.2, "unicode_strings": r.random() < 0.2,
                    "drop_keys": r.choice((None, None, [2008], [1277, 1276, 2007]))},
        "entry": r.random() < 0.3, "place": r.choice(("old.vfb", "new.vfb")),
    }


def load(vfb, how, data, path):
    if how == "path":
        if not path.exists() or path.read_bytes() != data:
            disk.write(path, data)
        vfb.vfb_path = path
        vfb.read()
    else:
        vfb.read_bytes(BytesIO(data))


def use(vfb, what, r, font):
    if what == "dec":
        vfb.decompile()
    elif what == "keys":
        list(vfb.keys())
    elif what == "draw":
        obs.drawn(vfb)
    elif what == "upm":
        obs.upm(vfb)
    elif what == "edit":
        free = [i for i, it in enumerate(font.items) if it.eid not in (1, 10, 1503, 1269, 2)]
        if free and len(vfb.entries) == len(font.items):
            i = r.choice(free)
            model, _ = fontgen.content(font.items[i].eid, r.random(), font.items[i].ctx)
            e = vfb.entries[i]
            e.decompile()
            if not assign(e.data, model):
                e.data = model
    elif what == "save":
        obs.save(vfb)
    elif what == "export":
        obs.attempt(vfb.decompile)
        obs.exported(vfb)
    elif what == "pen":
        names = list(vfb.keys())
        if names:
            n = r.choice(names)
            for m in range(min(2, vfb.num_masters)):
                g = vfb.getGlyphMaster(n, m)
                g.clearContours()
                pen = g.getPen()
                pen.moveTo((m, 0))
                pen.lineTo((100, m))
                pen.lineTo((100, 50))
                pen.closePath()
    elif what == "partial":
        for _ in range(3):
            r.choice(vfb.entries).decompile()
    elif what == "masters":
        for m in vfb.get_masters():
            list(m.keys())
    elif what == "clear":
        vfb.clear()
    elif what == "reread":
        obs.attempt(vfb.read)
    elif what == "hints":
        for n in list(vfb.keys())[:4]:
            obs.attempt(vfb[n].resolve_hint_sets)
    elif what == "quadratic":
        obs.quadratic(vfb)
    elif what == "json":
        obs.attempt(obs.dumps, vfb.as_dict())
    elif what in ("baddec", "badkeys", "badsave"):
        # A failure in the middle of a use
        pool = [e for e in vfb.entries if e.id not in (1, 2)]
        if what == "badkeys":
            pool = [e for e in pool if e.id in ref.GLYPH_ACCESS]
        if not pool:
            return
        e = r.choice(pool)
        if what == "badsave":
            e.data = Unencodable()
            obs.save(vfb)
        else:
            if not isinstance(e.data, bytes):
                e.compile()
            e.data = e.data[: r.randrange(max(len(e.data), 1))]
            obs.attempt(vfb.decompile if what == "baddec" else vfb.keys)


def attributes(vfb):
    """What a font object shows before its first use."""
    return {"order": list(vfb.glyph_order), "lib": dict(vfb.lib), "master": vfb.master_index,
            "hinting options": vfb.ps_hinting_options is not None}


def run(scn, rec):
    from vfbLib.vfb.vfb import Vfb

    from ..core import stream

    font = fontgen.build(scn["spec"])
    data = font.source()
    opts = dict(scn["options"], timing=False)
    if opts["drop_keys"] is not None:
        opts["drop_keys"] = set(opts["drop_keys"])
    scratch = Path(rec.scratch)

    def fresh():
        v = Vfb(**opts)
        load(v, scn["how"], data, scratch / "new.vfb")
        return attributes(v), obs.observe(v, scn["observe"])

    expected = fresh()
    vfb = Vfb(**opts)
    used = []
    for spec, uses, how, seed in scn["history"]:
        other = fontgen.build(spec or scn["spec"])
        src = other.source()
        load(vfb, how, src, scratch / scn["place"])
        r = stream("use", seed)
        for u in uses:
            used.append(u)
            if u == "fail":
                bad, _ = damaged(other, src, [["flip", "header", 0.02, 77], ["trunc", "any", 0.5, 0]], seed)
                try:
                    load(vfb, how, bad, scratch / "bad.vfb")
                except Exception as x:
                    rec.fault("failed load")
                    rec.ev("failed", type(x).__name__)
            else:
                try:
                    use(vfb, u, r, other)
                except Exception as x:
                    # Not every font can be exported or drawn
                    if u not in ("export", "draw", "pen", "partial", "keys", "dec", "edit", "masters", "badkeys", "baddec", "badsave", "hints"):
                        raise
                    rec.ev(u, "failed", type(x).__name__)
        rec.ev("history", len(src), *uses)
    load(vfb, scn["how"], data, scratch / "new.vfb")
    got = attributes(vfb), obs.observe(vfb, scn["observe"])
    d = obs.differ(expected, got)
    if d:
        raise Violation("reused object differs", f"after {used}: {d}")
    rec.state(tuple(sorted(set(used))), scn["observe"][0], len(scn["history"]), scn["spec"]["nm"])
    d = obs.differ(expected, fresh())
    if d:
        raise Violation("new object differs after other fonts were used", d)
    rec.ev("same", obs.digest(obs.dumps(got)))
    if scn["entry"]:
        entry(font, data, rec)


def entry(font, data, rec):
    """One VfbEntry object that reads all entries in turn."""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(data))
    buf = BytesIO(data)
    buf.seek(len(font.header_src))
    one = VfbEntry(vfb)
    for i, it in enumerate(font.items):
        one.read(buf)
        if one.id != it.eid or one.data != it.src:
            raise Violation("reused entry", f"entry {i} ({it.eid}) reads {one.id} {one.data!r:.80}")
        one.decompile()
        m = ref.E(it.eid, it.src, it.canon, it.model)
        ref.check_model(one, m, i, "reused entry")
        one.compile()
        if one.data != it.canon:
            raise Violation("reused entry", f"entry {i} ({it.eid}) is encoded as {one.data!r:.80}")
    rec.probe("reused VfbEntry")
