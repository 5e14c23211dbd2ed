"""P01: content survives any history of load, decode, encode, save and reload steps."""

from io import BytesIO
from pathlib import Path

from .. import disk, fontgen, ref
from ..core import Violation
from ..wire import same, where

ID = "P01"
LEVEL = "exploration"
RUNS = {"quick": 6500, "thorough": 40000}
RULE = (
    "A font of random entry types with random legal content in canonical or other legal "
    "encodings, written by either platform, and a random history of 1 to 12 whole-font and "
    "single-entry decode, encode, view, glyph access, save (file or buffer) and reload "
    "(path, buffer, stream with short reads and EINTR; same or new object) steps."
)
STATES = "distinct (entry type, state, last two operations on the font) triples"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "fontTools TT program assembler"]
STUB = ["clock", "input streams (short reads, interruptions)", "VFB writer of FontLab Studio (sim.gens)"]
ASSUMPTIONS = [
    "The reference encoder sim.gens describes each entry's format; it was written from the "
    "format documentation and the sample files, and agrees with the library on this tree.",
    "Encodings FontLab Studio never writes are limited to longer-than-needed integers, "
    "32-bit sizes for small entries and non-standard header sizes.",
]


def gen_ops(r, n):
    ops = []
    for _ in range(r.randint(1, n)):
        k = r.random()
        if k < 0.22:
            ops.append(["dec"])
        elif k < 0.42:
            ops.append(["dece", r.randrange(1000)])
        elif k < 0.50:
            ops.append(["com"])
        elif k < 0.58:
            ops.append(["come", r.randrange(1000)])
        elif k < 0.64:
            ops.append(["view", r.randrange(1000)])
        elif k < 0.68:
            ops.append(["glyphs"])
        elif k < 0.85:
            ops.append(["save", r.choice(("file", "bytes"))])
        else:
            ops.append(["reload", r.choice(("path", "new", "bytes", "stream")), r.randrange(2**32)])
    ops.append(["save", r.choice(("file", "bytes"))])
    ops.append(["reload", "bytes", 0])
    ops.append(["dec"])
    return ops


def gen(r, tier):
    k = r.random()
    if k < 0.8:
        spec = fontgen.wild_spec(r, big=0.02, max_glyphs=r.choice((1, 4)))
    else:
        spec = fontgen.export_spec(r)
    return {"spec": spec, "ops": gen_ops(r, r.choice((3, 12))),
            "load": [r.choice(("path", "bytes", "stream")), r.randrange(2**32)]}


def load(how, sel, data, rec, vfb=None):
    """Load by one of the library's ways. Returns the object."""
    from vfbLib.vfb.vfb import Vfb

    if how in ("path", "new"):
        p = Path(rec.scratch) / f"in{sel % 3}.vfb"
        disk.write(p, data)
        if vfb is None or how == "new":
            return Vfb(p, timing=False)
        vfb.vfb_path = p
        vfb.read()
        return vfb
    if vfb is None:
        vfb = Vfb(timing=False)
    if how == "bytes":
        vfb.read_bytes(BytesIO(data))
    else:
        raw = disk.SimStream(data, rec, sel, soft=0.5)
        vfb.read_bytes(disk.buffered(raw, (1, 2, 5, 64, 8192)[sel % 5]))
    return vfb


def run(scn, rec):
    font = fontgen.build(scn["spec"])
    ents = ref.entries_of(font)
    src = font.source()
    nb = ref.size_of(ents)
    B = ref.budget(nb, len(ents))

    def after_load(vfb, what):
        ref.check_loaded(vfb, ents, what)
        ref.mark_auto(ents)
        ref.check_raw(vfb, ents, what)

    with ref.bounded(B, "load"):
        vfb = load(*scn["load"], src, rec)
    after_load(vfb, "load")
    rec.ev("load", scn["load"][0], len(src), len(ents))
    last = saved = None
    for n, op in enumerate(scn["ops"]):
        what = f"op {n} {op}"
        kind = op[0]
        with ref.bounded(B, what):
            if kind == "dec":
                vfb.decompile()
                for i, (e, m) in enumerate(zip(vfb.entries, ents)):
                    m.state = "dec"
                    ref.check_model(e, m, i, what)
                if vfb.any_errors:
                    raise Violation("error flag", f"{what}: any_errors without errors")
            elif kind == "dece":
                i = op[1] % len(ents)
                vfb.entries[i].decompile()
                ents[i].state = "dec"
                ref.check_model(vfb.entries[i], ents[i], i, what)
                rec.state("dece", ents[i].eid, last)
            elif kind == "com":
                vfb.compile()
            elif kind == "come":
                i = op[1] % len(ents)
                vfb.entries[i].compile()
                rec.state("come", ents[i].eid, ents[i].state, last)
            elif kind == "view":
                i = op[1] % len(ents)
                d = vfb.entries[i].as_dict()
                view(d, ents[i], i, what)
            elif kind == "glyphs":
                names = list(vfb.keys())
                ref.mark_glyph_access(ents)
                if len(names) != sum(1 for m in ents if m.eid == 2001):
                    raise Violation("glyphs", f"{what}: {len(names)} glyphs")
            elif kind == "save":
                data = ref.save(vfb, op[1], rec.scratch)
                payloads = ref.check_saved(data, ents, font.header, what)
                for m, p in zip(ents, payloads):
                    rec.state("save", m.eid, m.state, last)
                ref.settle(ents, payloads)
                if saved is not None and last == "save" and data != saved:
                    raise Violation("second save differs", what)
                saved = data
                rec.ev(n, "save", len(data), hash_of(data))
            elif kind == "reload":
                data = saved if saved is not None else src
                if saved is None:
                    # Nothing saved yet: the original file again
                    ents = ref.entries_of(font)
                else:
                    ents = from_frames(saved, ents)
                vfb = load(op[1], op[2], data, rec, vfb)
                after_load(vfb, what)
        ref.check_loaded(vfb, ents, what)
        ref.check_raw(vfb, ents, what)
        if not header_ok(vfb, font):
            raise Violation("header content", what)
        rec.ev(n, *op)
        last = kind


def header_ok(vfb, font):
    d = vfb.header.data
    return isinstance(d, (bytes, bytearray)) or dict(d) == font.header


def from_frames(data, ents):
    from ..wire import parse_frames

    return [
        ref.E(m.eid, p, m.canon, m.model) for m, (_, p) in zip(ents, parse_frames(data))
    ]


def view(d, m, i, what):
    if "size" in d:
        got = bytes.fromhex(d["decompiled"])
        if got not in m.allowed() or d["size"] != len(got):
            raise Violation("view", f"{what}: entry {i} ({m.eid}) bytes {d['decompiled'][:80]}")
    elif not same(m.model, d["decompiled"]):
        raise Violation("view", f"{what}: entry {i} ({m.eid}): {where(m.model, d['decompiled'])}")


def hash_of(data):
    import hashlib

    return hashlib.sha256(data).hexdigest()[:12]
