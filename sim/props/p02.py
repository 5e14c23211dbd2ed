"""P02: an edit persists exactly, and nothing else changes."""

from copy import deepcopy
from io import BytesIO

from .. import fontgen, gens, ref
from ..core import Violation
from .p01 import hash_of, load

ID = "P02"
LEVEL = "exploration"
RUNS = {"quick": 6500, "thorough": 40000}
RULE = (
    "A random font, and a random history of 1 to 14 edits (replacing an entry's content, "
    "editing it in place, replacing its bytes, growing it past 64 KiB or shrinking it back, "
    "adding, removing, moving and copying entries) interleaved with decode, encode, view, "
    "save and reload steps."
)
STATES = "distinct (edit, entry type, state before, size class change) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers"]
STUB = ["clock", "input streams", "VFB writer of FontLab Studio (sim.gens)"]
ASSUMPTIONS = [
    "Edits don't change the values that the font derives when it is loaded (number of "
    "masters, writing platform, number of TrueType stems).",
]
FIXED = {1, 10, 1503, 1269, 2}
GROW = sorted(fontgen.BIG - {2001})


def gen(r, tier):
    spec = fontgen.wild_spec(r, big=0.02, max_glyphs=3, max_font=6) if r.random() < 0.75 else (
        fontgen.export_spec(r, max_glyphs=3))
    ops = []
    for _ in range(r.choice((2, 5, 14))):
        k = r.random()
        x, s = r.randrange(1000), fontgen.seed(r)
        if k < 0.2:
            ops.append(["set", x, s])
        elif k < 0.38:
            ops.append(["inplace", x, s])
        elif k < 0.44:
            ops.append(["raw", x, s])
        elif k < 0.48:
            ops.append(["grow", x, s])
        elif k < 0.56:
            ops.append(["add", x, s, r.choice(("dec", "raw"))])
        elif k < 0.61:
            ops.append(["del", x])
        elif k < 0.65:
            ops.append(["move", x, r.randrange(1000)])
        elif k < 0.68:
            ops.append(["copy", x])
        elif k < 0.74:
            ops.append(["dece", x])
        elif k < 0.77:
            ops.append(["dec"])
        elif k < 0.81:
            ops.append(["come", x])
        elif k < 0.84:
            ops.append(["com"])
        elif k < 0.94:
            ops.append(["save", r.choice(("file", "bytes"))])
        else:
            ops.append(["reload", r.choice(("path", "new", "bytes", "stream")), r.randrange(2**32)])
    ops += [["save", r.choice(("file", "bytes"))], ["reload", "new", 0], ["dec"], ["save", "bytes"]]
    return {"spec": spec, "ops": ops}


def assign(obj, new):
    """Change `obj` into `new` in place, keeping equal parts. False if that's impossible."""
    if isinstance(obj, dict) and isinstance(new, dict):
        for k in [k for k in obj if k not in new]:
            del obj[k]
        for k, v in new.items():
            if k not in obj or not assign(obj[k], v):
                obj[k] = deepcopy(v)
        # Order of keys as in the new content
        for k in new:
            obj[k] = obj.pop(k)
        return True
    if isinstance(obj, list) and isinstance(new, list):
        for i, v in enumerate(new[: len(obj)]):
            if not assign(obj[i], v):
                obj[i] = deepcopy(v)
        obj[len(new):] = deepcopy(new[len(obj):])
        return True
    return False


def run(scn, rec):
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    font = fontgen.build(scn["spec"])
    ents = ref.entries_of(font)
    ended = bool(ents) and ents[-1].eid == 2
    data = font.source()
    vfb = Vfb(timing=False)
    with ref.bounded(ref.budget(ref.size_of(ents), len(ents)), "load"):
        vfb.read_bytes(BytesIO(data))
    ref.check_loaded(vfb, ents)
    ref.mark_auto(ents)
    rec.ev("load", len(data), len(ents))
    saved = None
    dirty = False
    for n, op in enumerate(scn["ops"]):
        kind = op[0]
        what = f"op {n} {op}"
        free = [i for i, m in enumerate(ents) if m.eid not in FIXED]
        if kind in ("set", "inplace", "raw", "grow", "del", "move", "copy", "dece", "come"):
            pool = free if kind not in ("dece", "come") else list(range(len(ents)))
            if kind == "grow":
                pool = [i for i in free if ents[i].eid in GROW]
            if not pool:
                continue
            i = pool[op[1] % len(pool)]
            m = ents[i]
            e = vfb.entries[i]
        with ref.bounded(ref.budget(ref.size_of(ents), len(ents)) + 40_000_000, what):
            if kind in ("set", "inplace", "raw", "grow"):
                big = kind == "grow" and op[2] % 4 != 0
                if kind == "inplace" and m.eid == 2001:
                    # Other nodes for the same glyph
                    pass
                model, canon = fontgen.content(m.eid, op[2], m.item.ctx, big)
                size = (len(m.canon) > 0xFFFF, len(canon) > 0xFFFF)
                rec.state(kind, m.eid, m.state, size)
                if size[0] != size[1]:
                    rec.probe("an entry's size crosses 64 KiB")
                if kind == "raw":
                    e.data = canon
                    m.state = "raw"
                    m.src = canon
                else:
                    if kind == "inplace":
                        e.decompile()
                        ref.check_model(e, m, i, what)
                        if not assign(e.data, model):
                            e.data = deepcopy(model)
                    else:
                        e.data = deepcopy(model)
                    m.state = "dec"
                m.model, m.canon = model, canon
                dirty = True
            elif kind == "add":
                ids = [x for x in gens.ALL if x not in FIXED and x != 2001]
                eid = sorted(ids)[op[1] % len(ids)]
                ctx = font.ctx
                model, canon = fontgen.content(eid, op[2], ctx, False)
                e = VfbEntry(vfb, eid=eid)
                e.data = deepcopy(model) if op[3] == "dec" else canon
                vfb.add_entry(e)
                it = fontgen.Item(eid, canon, canon, model, False, None, ctx, -1)
                ents.append(ref.E(eid, canon, canon, model, "dec" if op[3] == "dec" else "raw", item=it))
                if ended:
                    # The end entry stays at the end
                    vfb.entries.insert(len(vfb.entries) - 2, vfb.entries.pop())
                    ents.insert(len(ents) - 2, ents.pop())
                rec.state(kind, eid, op[3])
                dirty = True
            elif kind == "del":
                del vfb.entries[i], ents[i]
                rec.state(kind, m.eid, m.state)
                dirty = True
            elif kind == "move":
                k = free[op[2] % len(free)]
                vfb.entries.insert(k, vfb.entries.pop(i))
                ents.insert(k, ents.pop(i))
                rec.state(kind, m.eid, m.state)
                dirty = True
            elif kind == "copy":
                e2 = VfbEntry(vfb, eid=m.eid)
                e2.data = deepcopy(e.data)
                vfb.entries.insert(i + 1, e2)
                ents.insert(i + 1, ref.E(m.eid, m.src, m.canon, m.model, m.state, item=m.item))
                rec.state(kind, m.eid, m.state)
                dirty = True
            elif kind == "dece":
                e.decompile()
                m.state = "dec"
                ref.check_model(e, m, i, what)
            elif kind == "come":
                e.compile()
            elif kind == "dec":
                vfb.decompile()
                for i, (e, m) in enumerate(zip(vfb.entries, ents)):
                    m.state = "dec"
                    ref.check_model(e, m, i, what)
            elif kind == "com":
                vfb.compile()
            elif kind == "save":
                saved = ref.save(vfb, op[1], rec.scratch)
                ref.settle(ents, ref.check_saved(saved, ents, font.header, what))
                dirty = False
                rec.ev(n, "save", len(saved), hash_of(saved))
            elif kind == "reload":
                if dirty or saved is None:
                    # Saving first is the only way to keep the edits
                    saved = ref.save(vfb, "bytes", rec.scratch)
                    ref.settle(ents, ref.check_saved(saved, ents, font.header, what))
                    dirty = False
                vfb = load(op[1], op[2], saved, rec, vfb)
                for m in ents:
                    m.state = "raw"
                ref.check_loaded(vfb, ents, what)
                ref.mark_auto(ents)
        if [e.id for e in vfb.entries] != [m.eid for m in ents]:
            raise Violation("entries", what)
        ref.check_raw(vfb, ents, what)
        rec.ev(n, *op)
