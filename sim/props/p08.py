"""P08: reading access and exports don't change a font, and repeat exactly."""

import json
from io import BytesIO

from .. import fontgen, obs, ref
from ..core import Violation

ID = "P08"
LEVEL = "exploration"
RUNS = {"quick": 6500, "thorough": 40000}
RULE = (
    "A random font, loaded and decoded in part or as a whole, on which a random sequence of "
    "3 to 12 reading operations runs: glyph access, drawing on segment and point pens for "
    "each master, hint resolution, view as dict and JSON, encoding of single entries, UFO "
    "and designspace export with random options (once or twice by one builder), a visitor "
    "that modifies the exported UFOs, and saves. After each operation the content is that of the "
    "reference model, each operation's result is the same whenever it is repeated, and the "
    "last save writes the content unchanged."
)
STATES = "distinct (operation, previous operation, outcome, kind of font) combinations"
REAL = ["vfbLib.vfb", "vfbLib.ufo", "vfbLib.json", "ufoLib2", "fontTools.designspaceLib"]
STUB = ["clock"]
ASSUMPTIONS = ["Exports run on completely decoded fonts, as the command line tools do it."]
OPS = ("access", "drawn", "content", "upm", "export", "export", "export2", "json", "save", "come",
       "dece", "vandal", "masters", "hints", "repr", "raw")


def options(r):
    return {
        "minimal": r.random() < 0.25, "base64": r.random() < 0.2, "pshints": r.random() < 0.75,
        "add_kerning_groups": r.random() < 0.4, "move_groups": r.random() < 0.6,
    }


def gen(r, tier):
    spec = fontgen.export_spec(r, max_glyphs=4) if r.random() < 0.8 else fontgen.wild_spec(
        r, max_font=6, max_glyphs=3)
    opts = [options(r) for _ in range(2)]
    ops = []
    for _ in range(r.choice((3, 6, 12))):
        op = r.choice(OPS)
        if op in ("export", "export2", "vandal"):
            ops.append([op, r.choice(opts)])
        else:
            ops.append([op, r.randrange(1000)])
    return {"spec": spec, "ops": ops, "decode": r.choice(("all", "all", "some", "none")),
            "minimal": r.random() < 0.15}


def hints(vfb):
    out = []
    for n in list(vfb.keys())[:5]:
        out.append((obs.attempt(lambda: vfb[n].resolve_hints()),
                    obs.attempt(lambda: vfb[n].resolve_hint_sets())))
    return out


def masters(vfb):
    out = []
    for m in vfb.get_masters():
        out.append((list(m.keys()), m.num_masters, list(m.glyph_order), m.info.unitsPerEm))
        for n in list(m.keys())[:3]:
            out.append((len(m[n]), n in m))
    return out


def vandal(vfb, opts):
    """Change everything in the exported UFOs: they must not share data with the font."""
    from pathlib import Path

    from vfbLib.ufo.builder import VfbToUfoBuilder

    ufos, ds = VfbToUfoBuilder(vfb, **opts).get_ufos_designspace(Path("out.ufo"), silent=True)
    out = [obs.ufo_dict(u) for u in ufos]
    for u in ufos:
        for g in list(u):
            for c in g.contours:
                for p in c:
                    p.x += 1000
            g.width = -1
            g.anchors.clear()
            wreck(g.lib)
            g.unicodes.append(0xE000)
        wreck(u.lib)
        for k in list(u.groups):
            u.groups[k].append("vandal")
        u.kerning.clear()
        for names in (u.info.openTypeOS2Panose, u.info.postscriptBlueValues, u.info.openTypeOS2Selection):
            if isinstance(names, list):
                names.append(77)
    return out


def wreck(x):
    if isinstance(x, dict):
        for k in list(x):
            wreck(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = "vandal"
    elif isinstance(x, list):
        for v in x:
            wreck(v)
        x.append("vandal")


def run(scn, rec):
    from vfbLib.vfb.vfb import Vfb

    font = fontgen.build(scn["spec"])
    ents = ref.entries_of(font)
    vfb = Vfb(timing=False, minimal=scn["minimal"])
    vfb.read_bytes(BytesIO(font.source()))
    ref.mark_auto(ents)
    if scn["decode"] == "all":
        vfb.decompile()
        for m in ents:
            m.state = "dec"
    elif scn["decode"] == "some":
        for i in range(0, len(ents), 2):
            vfb.entries[i].decompile()
            ents[i].state = "dec"
    results = {}
    last = ""
    for n, (op, arg) in enumerate(scn["ops"]):
        what = f"op {n} {op} {arg}"
        key = op + json.dumps(arg, sort_keys=True) if isinstance(arg, dict) else op
        if op in ("access", "drawn", "hints"):
            res = obs.STEPS[op](vfb) if op in obs.STEPS else obs.attempt(hints, vfb)
            ref.mark_glyph_access(ents)
        elif op == "upm":
            res = obs.upm(vfb)
            for m in ents:
                if m.eid == 1135 and m.state == "raw":
                    m.state = "maybe"
        elif op == "masters":
            res = obs.attempt(masters, vfb)
            ref.mark_glyph_access(ents)
            for m in ents:
                if m.eid == 1135 and m.state == "raw":
                    m.state = "maybe"
        elif op in ("export", "export2", "vandal"):
            vfb.decompile()
            for m in ents:
                m.state = "dec"
            if op == "vandal":
                res = obs.attempt(vandal, vfb, arg)
                key = "vandal" + json.dumps(arg, sort_keys=True)
            else:
                res = obs.attempt(obs.export, vfb, 2 if op == "export2" else 1, **arg)
                key = "export" + json.dumps(arg, sort_keys=True)
                if isinstance(res, list):
                    if len(res) == 2:
                        d = obs.differ(res[0], res[1])
                        if d:
                            raise Violation("second export of a builder differs", f"{what}: {d}")
                    res = res[0]
            rec.probe("export failed" if isinstance(res, tuple) and res[0] == "error" else "export")
        elif op == "json":
            import orjson

            d = vfb.as_dict()
            res = None
            obs.attempt(orjson.dumps, d, option=orjson.OPT_NON_STR_KEYS)
        elif op == "content":
            obs.content(vfb)
            res = None
        elif op == "save":
            data = ref.save(vfb, "bytes", rec.scratch)
            ref.settle(ents, ref.check_saved(data, ents, font.header, what))
            res = None
        elif op == "come":
            i = arg % len(ents)
            vfb.entries[i].compile()
            res = None
        elif op == "dece":
            i = arg % len(ents)
            vfb.entries[i].decompile()
            ents[i].state = "dec"
            res = None
        elif op == "repr":
            [repr(e) for e in vfb.entries]
            res = None
        elif op == "raw":
            obs.raw(vfb)
            res = None
        failed = isinstance(res, tuple) and len(res) == 3 and res[0] == "error"
        rec.ev(n, op, obs.digest(obs.dumps(res)))
        rec.state(op, last, failed, scn["spec"].get("curves"), scn["spec"]["nm"])
        last = op
        if res is not None:
            if key in results:
                d = obs.differ(results[key], res)
                if d:
                    raise Violation("repeated operation differs", f"{what}: {d}")
                rec.probe("repeated operation")
            results[key] = res
        # The content is unchanged
        ref.check_loaded(vfb, ents, what)
        for i, (e, m) in enumerate(zip(vfb.entries, ents)):
            if isinstance(e.data, (bytes, bytearray)):
                if bytes(e.data) not in (*m.allowed(), m.canon):
                    raise Violation("entry bytes", f"{what}: entry {i} ({m.eid})")
            else:
                ref.check_model(e, m, i, what)
    ref.check_saved(ref.save(vfb, "bytes", rec.scratch), ents, font.header, "last save")
