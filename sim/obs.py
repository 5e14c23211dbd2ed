"""What can be observed of a font: everything a user can get out of a Vfb object."""

import hashlib
import json
from io import BytesIO
from pathlib import Path


def digest(x) -> str:
    if not isinstance(x, (bytes, bytearray)):
        x = repr(x).encode("utf-8", "backslashreplace")
    return hashlib.sha256(x).hexdigest()[:16]


def plain(x):
    """Comparable form of decoded content: keeps the order of dicts, types of numbers."""
    if isinstance(x, dict):
        return ("d", tuple(sorted((repr(k), plain(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(plain(v) for v in x))
    return repr(x)


def export(vfb, rounds=1, **options):
    """UFO masters and designspace, as text. None if the font can't be exported."""
    from vfbLib.ufo.builder import VfbToUfoBuilder

    builder = VfbToUfoBuilder(vfb, **options)
    outs = []
    for _ in range(rounds):
        ufos, ds = builder.get_ufos_designspace(Path("out.ufo"), silent=True)
        outs.append(([ufo_dict(u) for u in ufos], ds.tostring().decode() if ds else None))
    return outs


def ufo_dict(ufo):
    from ufoLib2.converters import unstructure

    return unstructure(ufo)


def attempt(f, *a, **k):
    """A result or the type of the error."""
    try:
        return f(*a, **k)
    except Exception as x:
        return ("error", type(x).__name__, str(x)[:200])


def raw(vfb):
    """What is in the object, without decoding anything."""
    return {
        "ids": [e.id for e in vfb.entries],
        "keys": [e.key for e in vfb.entries],
        "data": [
            bytes(e.data).hex() if isinstance(e.data, (bytes, bytearray)) else plain(e.data)
            for e in vfb.entries
        ],
        "classes": [
            (getattr(e.parser, "__name__", None), getattr(e.compiler, "__name__", None))
            for e in vfb.entries
        ],
        "header": plain(vfb.header.data),
        "any_errors": vfb.any_errors,
        "num_masters": vfb.num_masters,
        "platform": vfb.writer_platform,
        "encoding": vfb.encoding,
        "stems": (vfb.ttStemsV_count, vfb.ttStemsH_count),
    }


def access(vfb):
    names = attempt(lambda: list(vfb.keys()))
    out = {"names": names, "order": list(vfb.glyph_order)}
    if isinstance(names, list):
        out["glyphs"] = [
            (attempt(lambda n=n: plain(vfb[n].entry.data)), attempt(lambda n=n: len(vfb[n])))
            for n in names
        ]
        out["in"] = [n in vfb for n in ("A", "nope", *names[:1])]
        out["masters"] = len(vfb.get_masters())
        out["psho"] = vfb.ps_hinting_options is not None
        out["links"] = [attempt(lambda n=n: plain(vfb[n].resolve_hints())) for n in names[:4]]
    return out


def upm(vfb):
    return attempt(lambda: vfb.info.unitsPerEm)


def drawn(vfb):
    from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

    out = []
    names = attempt(lambda: list(vfb.keys()))
    if not isinstance(names, list):
        return names
    for n in names[:6]:
        g = attempt(lambda n=n: vfb[n])
        if isinstance(g, tuple):
            out.append(g)
            continue
        p = RecordingPen()
        out.append((attempt(g.draw, p), p.value))
        p = RecordingPointPen()
        out.append((attempt(g.drawPoints, p), p.value))
        for m in range(min(vfb.num_masters, 2)):
            p = RecordingPointPen()
            r = attempt(lambda n=n, m=m, p=p: vfb.getGlyphMaster(n, m).drawPoints(p))
            out.append((r, p.value))
    return out


def decode(vfb):
    e = attempt(vfb.decompile)
    return (e, vfb.any_errors)


def content(vfb):
    return [attempt(lambda e=e: plain(e.as_dict())) for e in vfb.entries]


def save(vfb):
    buf = BytesIO()
    e = attempt(vfb.write_bytes, buf)
    return (e, buf.getvalue().hex())


def exported(vfb):
    return attempt(export, vfb)


def quadratic(vfb):
    """Convert the curves of all masters."""
    from fontTools.cu2qu.ufo import font_to_quadratic, fonts_to_quadratic

    if vfb.num_masters == 1:
        return attempt(font_to_quadratic, vfb)
    r = attempt(lambda: fonts_to_quadratic(vfb.get_masters(), remember_curve_type=False))
    return sorted(r) if isinstance(r, set) else r


STEPS = {
    "quadratic": quadratic,
    "raw": raw, "access": access, "upm": upm, "drawn": drawn, "decode": decode,
    "content": content, "save": save, "export": exported,
}


def observe(vfb, steps):
    return [(s, STEPS[s](vfb)) for s in steps]


def differ(a, b, path=""):
    """First difference between two observations, or None."""
    if type(a) is not type(b):
        return f"{path}: {a!r:.200} / {b!r:.200}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing"
            d = differ(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}/{k}: additional"
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        if isinstance(a, str):
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            k = max(k - 30, 0)
            return f"{path}: {a[k:k + 120]!r} / {b[k:k + 120]!r}"
        return f"{path}: {a!r:.200} / {b!r:.200}"
    return None


def dumps(x) -> str:
    return json.dumps(x, sort_keys=False, default=repr)
