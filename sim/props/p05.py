"""P05: a failure in one entry stays in that entry."""

from copy import deepcopy
from io import BytesIO
from pathlib import Path

from .. import fontgen, ref
from ..core import Violation, stream
from ..wire import same, where
from .p03 import Unencodable, leaves, put

ID = "P05"
LEVEL = "fault_enumeration"
RUNS = {"quick": 4800, "thorough": 80000}
RULE = (
    "A random font in which the data of 1 to 4 random entries is damaged (cut, extended, "
    "flipped, overwritten, replaced by noise, text with characters that do not exist) inside "
    "intact framing, and a random history of decode, encode, glyph access, view, save and repair steps, in which content of random "
    "entries is made unencodable (by objects, texts or numbers that do not fit) and repaired again."
)
STATES = "distinct (entry type, failure kind, operation, outcome) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "fontTools TT program assembler"]
STUB = ["clock"]
ASSUMPTIONS = [
    "Damaged data that still can be decoded has no defined content; it is only followed "
    "until it is encoded again or repaired.",
]


def gen(r, tier):
    spec = fontgen.wild_spec(r, big=0.03, max_glyphs=3, max_font=6) if r.random() < 0.8 else (
        fontgen.export_spec(r, max_glyphs=3))
    faults = []
    for _ in range(r.choice((0, 1, 1, 2, 4))):
        faults.append([r.randrange(1000), r.choice(("cut", "cut", "extend", "flip", "fill", "noise", "ff", "text")),
                       r.random(), r.randrange(2**30)])
    ops = []
    for _ in range(r.choice((3, 8, 14))):
        k = r.random()
        x = r.randrange(1000)
        if k < 0.3:
            ops.append(["dece", x])
        elif k < 0.45:
            ops.append(["decbad", x])
        elif k < 0.55:
            ops.append(["dec"])
        elif k < 0.62:
            ops.append(["com"])
        elif k < 0.68:
            ops.append(["come", x])
        elif k < 0.76:
            ops.append(["poison", x, r.choice(("whole", "leaf", "value", "value")),
                        r.randrange(2**30)])
        elif k < 0.82:
            ops.append(["glyph", x])
        elif k < 0.86:
            ops.append(["view", x])
        elif k < 0.94:
            ops.append(r.choice((["save"], ["save", "file"])))
        else:
            ops.append(["repair", x])
    return {"spec": spec, "faults": faults, "ops": ops}


# What depends on other values, is a bit number, or only a truth value
DERIVED = {
    "flags", "other", "options", "preview", "num_masters", "num_contours", "on", "stem",
    "generate_flex", "hint_replacement", "horizontal_3_stem", "vertical_3_stem",
    "autohinting_options", "expand_kern_flags",
}
BITS = {2021, 1744}


def unencodable(eid, x, paths, sel):
    """A place in the content, and a text or number that the format can't hold."""
    good = []
    for p in paths:
        v = x
        for k in p:
            v = v[k]
        if eid in BITS or DERIVED & set(p) or type(v) not in (int, str):
            continue
        good.append((p, (v[: sel % 4] + "\u0416") if type(v) is str else (2**40, -(2**40))[sel % 2]))
    return good[(sel >> 2) % len(good)] if good else None


def damage(b, f):
    r = stream("payload", f[3])
    n = len(b)
    p = int(f[2] * n)
    kind = f[1]
    if kind == "cut":
        return b[:p]
    if kind == "extend":
        return b + r.randbytes(r.randint(1, 9))
    if kind == "flip" and n:
        return b[:p] + bytes([b[p] ^ r.randint(1, 255)]) + b[p + 1 :]
    if kind == "fill":
        k = min(n - p, r.randint(1, 40))
        return b[:p] + r.randbytes(k) + b[p + k :]
    if kind == "ff":
        k = min(n - p, r.randint(1, 40))
        return b[:p] + b"\xff\x7f\xff\xff\xff"[:k] + b[p + k :]
    return r.randbytes(r.randint(0, 60))


def damaged_text(item, f):
    """A text of the entry gets a character that doesn't exist in its encoding."""
    found = []
    for p in leaves(item.model):
        x = item.model
        for k in p:
            x = x[k]
        if type(x) is str and len(x) > 3:
            b = x.encode("cp1252", "ignore")
            if len(b) > 3 and item.src.count(b) == 1:
                found.append(b)
    if not found:
        return item.src, None
    b = found[f[3] % len(found)]
    k = 1 + int(f[2] * (len(b) - 2))
    new = b[:k] + b"\x81\x8d\x8f\x90\x9d"[f[3] % 5 :][:1] + b[k + 1 :]
    return item.src.replace(b, new), new


def run(scn, rec):
    from vfbLib.vfb.vfb import Vfb

    font = fontgen.build(scn["spec"])
    free = [i for i, it in enumerate(font.items) if it.eid not in (1, 10, 1503, 1269, 2, 1410)]
    bad = {}
    damaged = {}
    exact = set()  # entries whose data was as the library writes it
    texts = {}  # text that may not get lost, if it can be decoded
    for f in scn["faults"]:
        if not free:
            break
        i = free[f[0] % len(free)]
        it = font.items[i]
        t = None
        if f[1] == "text":
            b, t = damaged_text(it, f)
        else:
            b = damage(it.src, f)
        if b == it.src or i in bad:
            continue
        if t:
            texts[i] = t
        if it.src == it.canon:
            exact.add(i)
        bad[i] = f[1]
        it.src = damaged[i] = b
        it.long = False
        rec.fault(f"damaged entry ({f[1]})")
    ents = ref.entries_of(font)
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(font.source()))
    ref.check_loaded(vfb, ents)
    ref.mark_auto(ents)
    odd = {}  # damaged entries that could be decoded: no defined content
    poisoned = {}
    total = sum(len(m.src) + len(m.canon) for m in ents)
    full = ref.budget(total, len(ents))
    order = sorted(bad)
    flag = False

    def one(i):
        return 20_000 + 300 * (len(ents[i].src) + len(ents[i].canon))

    def keeps(what, only=None):
        """All entries hold what they should."""
        for i, (e, m) in enumerate(zip(vfb.entries, ents)):
            if i in odd or i in poisoned:
                continue
            if isinstance(e.data, (bytes, bytearray)):
                if bytes(e.data) not in m.allowed():
                    raise Violation("entry bytes", f"{what}: entry {i} ({m.eid}): {bytes(e.data)[:40].hex()} instead of {m.allowed()[-1][:40].hex()}")
            elif i in bad:
                raise Violation("decoded unexpectedly", f"{what}: entry {i} ({m.eid})")
            elif not same(m.model, e.data):
                raise Violation("content", f"{what}: entry {i} ({m.eid}): {where(m.model, e.data)}")

    def decode(i, what):
        nonlocal flag
        m, e = ents[i], vfb.entries[i]
        old = e.data
        if i in poisoned:
            return
        try:
            with ref.bounded(one(i), what):
                e.decompile()
        except Violation:
            raise
        except Exception as x:
            rec.state(m.eid, bad.get(i), "dece", type(x).__name__)
            if i not in bad:
                raise
            if not vfb.any_errors:
                raise Violation("error flag", f"{what}: any_errors isn't set") from x
            if e.data != old:
                raise Violation("data lost", f"{what}: entry {i} ({m.eid}) doesn't keep its data") from x
            flag = True
            rec.ev("failed", i, m.eid, type(x).__name__)
            return
        if i in bad:
            if not isinstance(e.data, bytes):
                odd[i] = 1
                more = m.src[len(m.canon) :]
                if bad[i] == "extend" and m.src == damaged[i] and more.strip(b"\0") and same(m.model, e.data):
                    raise Violation("bytes ignored", f"{what}: entry {i} ({m.eid}) has more bytes than its content")
            rec.probe("damaged entry could be decoded")
        else:
            m.state = "dec"
            ref.check_model(e, m, i, what)

    def settle():
        """Some entries were encoded, in the middle of the list or not."""
        for i, e in enumerate(vfb.entries):
            if i in odd and isinstance(e.data, (bytes, bytearray)):
                if bad.get(i) == "cut" and ents[i].src == damaged[i] and i in exact:
                    # The feature code always ends with an empty line
                    pad = b"\0\n" if e.id == 1276 else b"\0"
                    if e.data.strip(pad) != damaged[i].strip(pad):
                        raise Violation("made-up content", f"entry {i} ({e.id}): {damaged[i][:60].hex()} was encoded as {bytes(e.data)[:60].hex()}")
                if i in texts and texts[i] not in e.data:
                    raise Violation("text lost", f"entry {i} ({e.id}): {texts[i]} isn't in {bytes(e.data)[:60]}")
                ents[i].src = bytes(e.data)
                del odd[i]

    for n, op in enumerate([*scn["ops"], ["end"]]):
        what = f"op {n} {op}"
        kind = op[0]
        if kind == "dece":
            decode(op[1] % len(ents), what)
        elif kind == "decbad":
            if order:
                decode(order[op[1] % len(order)], what)
        elif kind == "dec":
            if poisoned:
                continue
            try:
                with ref.bounded(full, what):
                    vfb.decompile()
            except Violation:
                raise
            except Exception as x:
                if not bad:
                    raise
                if not vfb.any_errors:
                    raise Violation("error flag", f"{what}: any_errors isn't set") from x
                flag = True
                rec.ev(n, "dec failed", type(x).__name__)
            else:
                if vfb.any_errors:
                    raise Violation("error flag", f"{what}: any_errors, but nothing failed")
                flag = False
                all_decoded(vfb, ents, what)
            for i, e in enumerate(vfb.entries):
                if not isinstance(e.data, (bytes, bytearray)):
                    if i in bad:
                        odd[i] = 1
                    else:
                        ents[i].state = "dec"
        elif kind in ("com", "come", "save"):
            settle()
            buf = BytesIO()
            out = Path(rec.scratch) / "out.vfb" if len(op) > 1 and kind == "save" else None
            i = op[1] % len(ents) if kind == "come" else None
            try:
                with ref.bounded(full if i is None else one(i) * 2, what):
                    if kind == "com":
                        vfb.compile()
                    elif kind == "come":
                        vfb.entries[i].compile()
                    elif out:
                        vfb.write(out)
                        buf.write(out.read_bytes())
                    else:
                        vfb.write_bytes(buf)
            except Violation:
                raise
            except Exception as x:
                # Text that can be decoded can also be encoded
                blame = set(poisoned) | (set(odd) - set(texts))
                if i is not None:
                    blame &= {i}
                if not blame:
                    raise
                rec.fault("entry that can't be encoded")
                rec.ev(n, kind, "failed", type(x).__name__)
            else:
                if kind != "come" and any(p for p in poisoned.values()):
                    raise Violation("silent failure", f"{what}: unencodable content was accepted")
                if kind == "save":
                    settle()
                    if not poisoned:
                        ref.settle(ents, ref.check_saved(buf.getvalue(), ents, font.header, what))
            settle()
        elif kind == "poison":
            if not free:
                continue
            i = free[op[1] % len(free)]
            if i in bad or i in poisoned:
                continue
            m = ents[i]
            x = deepcopy(m.model)
            paths = list(leaves(x))
            whole = op[2] == "whole" or not paths or paths == [()]
            if whole:
                x = Unencodable()
            elif op[2] == "value":
                p = unencodable(m.eid, x, paths, op[3])
                if p is None:
                    continue
                put(x, p[0], p[1])
                whole = True
            else:
                put(x, paths[op[3] % len(paths)], Unencodable())
            vfb.entries[i].data = x
            poisoned[i] = whole
            rec.state(m.eid, whole, "poison", "")
        elif kind == "repair":
            pool = sorted(set(poisoned) | set(bad))
            if pool:
                i = pool[op[1] % len(pool)]
                m = ents[i]
                vfb.entries[i].data = m.src = m.canon
                m.state = "raw"
                for s in (poisoned, bad, odd):
                    s.pop(i, None)
        elif kind == "glyph":
            glyphs(vfb, ents, bad, poisoned, odd, rec, what, full, op[1])
            if vfb.any_errors and not flag:
                if not bad:
                    raise Violation("error flag", f"{what}: any_errors, but nothing failed")
                flag = True
        elif kind == "view":
            i = op[1] % len(ents)
            if i not in poisoned:
                vfb.entries[i].as_dict()
        if vfb.any_errors != flag and kind != "end":
            raise Violation("error flag", f"{what}: any_errors is {vfb.any_errors}")
        keeps(what)
        rec.ev(n, *op)
    # Everything that isn't damaged can still be decoded and saved
    for i in sorted(set(poisoned) | set(odd)):
        m = ents[i]
        vfb.entries[i].data = m.src = m.canon
        m.state = "raw"
        bad.pop(i, None)
    odd.clear()
    poisoned.clear()
    for i in range(len(ents)):
        if i not in bad:
            decode(i, "at the end")
    buf = BytesIO()
    vfb.write_bytes(buf)
    ref.check_saved(buf.getvalue(), ents, font.header, "at the end")
    out = Path(rec.scratch) / "out.vfb"
    vfb.write(out)
    if out.read_bytes() != buf.getvalue():
        raise Violation("saved bytes differ", "at the end: the file has other bytes than the stream")
    # After the repair of what is still damaged, nothing reminds of the failures
    for i in sorted(bad):
        m = ents[i]
        vfb.entries[i].data = m.src = m.canon
        m.state = "raw"
    with ref.bounded(full, "repaired"):
        vfb.decompile()
    if vfb.any_errors:
        raise Violation("error flag", "repaired: any_errors, but nothing failed")
    all_decoded(vfb, ents, "repaired")
    for i, (e, m) in enumerate(zip(vfb.entries, ents)):
        m.state = "dec"
        ref.check_model(e, m, i, "repaired")
    rec.ev("end", len(buf.getvalue()))


def all_decoded(vfb, ents, what):
    for i, (e, m) in enumerate(zip(vfb.entries, ents)):
        if isinstance(e.data, (bytes, bytearray)) and not isinstance(m.model, (bytes, bytearray)):
            raise Violation("left out", f"{what}: entry {i} ({m.eid}) wasn't decoded, without an error")


def glyphs(vfb, ents, bad, poisoned, odd, rec, what, full, x):
    n = sum(1 for m in ents if m.eid == 2001)
    involved = {i for i, m in enumerate(ents) if m.eid in ref.GLYPH_ACCESS}
    trouble = involved & (set(bad) | set(poisoned))
    try:
        with ref.bounded(full, what):
            names = list(vfb.keys())
    except Violation:
        raise
    except Exception as e:
        if not trouble:
            raise
        rec.ev("glyph access failed", type(e).__name__)
    else:
        # The whole glyph set or none
        if len(names) != n and not (trouble & set(poisoned)):
            raise Violation("incomplete glyph set", f"{what}: {len(names)} of {n} glyphs")
    for i in involved:
        e = vfb.entries[i]
        if i in poisoned:
            continue
        if i in bad:
            if not isinstance(e.data, (bytes, bytearray)):
                odd[i] = 1
        elif not isinstance(e.data, (bytes, bytearray)):
            ents[i].state = "dec"
