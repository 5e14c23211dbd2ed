"""P17: quadratic conversion changes outlines only, and the same way in all masters."""

from io import BytesIO
from pathlib import Path

from .. import cli, disk, fontgen, ufomodel
from ..core import Rec, Violation
from ..wire import FrameError, parse_frames
from . import p11
from .p05 import damage
from .p16 import DAMAGE, decodable

ID = "P17"
LEVEL = "fault_enumeration"
RUNS = {"quick": 4200, "thorough": 45000}
RULE = (
    "vfbcu2qu converts a random font with 1, 2 or 4 masters (cubic, some quadratic; open, closed "
    "and degenerate contours) under random error limits, one to three times in one process, also "
    "its own result, with short and interrupted reads and writes, I/O errors and crashes at any "
    "file operation, and damaged entries, over nothing or an earlier result. A written result is "
    "parsed independently: all other entries byte by byte, the outlines of every master against "
    "the cubic curves of the reference model."
)
STATES = "distinct (masters, options, segment kinds, faults, existing result, status) tuples"
REAL = ["vfbLib and its command line functions", "fontTools.cu2qu"]
STUB = p11.STUB
ASSUMPTIONS = [
    "Off-curve points are rounded to integers, so that a curve may be one unit further off than "
    "the error limit.",
    "A write that fails may leave a damaged result (P11).",
]


def gen(r, tier):
    nm = r.choice((1, 1, 2, 2, 4))
    spec = fontgen.export_spec(r, max_glyphs=r.choice((1, 3, 6)), nm=nm,
                               curves="tt" if r.random() < 0.12 else "t1")
    steps = []
    for _ in range(r.choice((1, 1, 2, 2, 3))):
        s = {"opts": cli.gen_options(r, "qu"), "font": r.choice(("source", "source", "result")),
             "force": int(r.random() < 0.85), "seed": r.randrange(1, 10**6),
             "cut": r.randrange(10**6), "soft": r.choice((0, 0, 0.3)), "faults": [], "damage": []}
        if r.random() < 0.3:
            k = r.random()
            s["faults"] = [{"at": k if r.random() < 0.6 else 1 - k / 10,
                            "class": r.choice(("err", "err", "full", "crash")),
                            "sel": r.randrange(60)}]
        elif r.random() < 0.12:
            s["damage"] = [[r.randrange(1000), r.choice(DAMAGE), r.random(), r.randrange(2**30)]]
        steps.append(s)
    return {"spec": spec, "steps": steps, "path": int(r.random() < 0.5),
            "name": r.choice(cli.NAMES), "pre": r.choice(("no", "no", "foreign", "other"))}


# ------------------------------------------------------------------ outlines


def segments(pts, nm):
    """
    The segments of one contour: [(kind, [start, off-curve points, end] per master)], from the
    UFO points of all masters, or None for a single point.
    """
    n = len(pts[0])
    types = [p[2] for p in pts[0]]
    if n == 1:
        return None
    opened = types[0] == "move"
    k = 0 if opened else next(i for i in range(n) if types[i] is not None)
    order = [(k + i) % n for i in range(n)]
    if not opened:
        order.append(k)
    out = []
    acc = [order[0]]
    for i in order[1:]:
        acc.append(i)
        if types[i] is not None:
            out.append((types[i], [[p[j][:2] for j in acc] for p in pts]))
            acc = [i]
    return out


def result_points(nodes, m):
    """The points of a converted contour."""
    return ufomodel.contour(nodes, m)


def moving(segs):
    """Without lines that have no length in any master."""
    return [s for s in segs if s[0] != "line" or any(p[0] != p[-1] for p in s[1])]


def backwards(segs):
    return [(k, [p[::-1] for p in pts]) for k, pts in reversed(segs)]


def deviation(cubic, quads):
    """The largest distance of points at the same relative parameter."""
    off = quads[1:-1]
    ends = [quads[0], *(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(off, off[1:])), quads[-1]]
    n = len(off)
    far = 0.0
    for k in range(n):
        a, b, c = ends[k], off[k], ends[k + 1]
        for j in range(9):
            u = j / 8
            t = (k + u) / n
            q = [(1 - u) ** 2 * a[i] + 2 * u * (1 - u) * b[i] + u * u * c[i] for i in (0, 1)]
            p = [
                (1 - t) ** 3 * cubic[0][i] + 3 * t * (1 - t) ** 2 * cubic[1][i]
                + 3 * t * t * (1 - t) * cubic[2][i] + t**3 * cubic[3][i] for i in (0, 1)
            ]
            far = max(far, ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5)
    return far


def matches(want, got, limit):
    """Error, or None if the segments are the expected ones in this rotation."""
    for i, ((k, w), (t, g)) in enumerate(zip(want, got)):
        for m, (a, b) in enumerate(zip(w, g)):
            if a[0] != b[0] or a[-1] != b[-1]:
                return f"segment {i} of master {m}: {b[0]}-{b[-1]} instead of {a[0]}-{a[-1]}"
            if k == "line" and t != "line":
                return f"segment {i} is a curve instead of a line"
            if k == "qcurve" and (t != k or a != b):
                return f"segment {i} of master {m}: {b} instead of {a}"
            if k == "curve":
                if t != "qcurve":
                    return f"segment {i} is a line instead of a curve"
                if (d := deviation(a, b)) > limit + 1:
                    return f"segment {i} of master {m} is {d:.2f} units off, limit {limit}: {a} {b}"
    return None


def check_contour(nodes, new, nm, limit, what):
    if any(n["type"] == "curve" for n in new):
        raise Violation("cubic curve", what)
    if any(len(n["points"]) != nm for n in new):
        raise Violation("structure", f"{what}: {new}")
    old = [ufomodel.contour(nodes, m) for m in range(nm)]
    want = segments(old, nm)
    if want is None:
        a = [p[0][:2] for p in old]
        b = [tuple(p[0]) for p in new[0]["points"]]
        if len(new) != 1 or a != b:
            raise Violation("outline", f"{what}: {b} instead of {a}")
        return
    opened = bool(nodes[0]["flags"] & 8)
    if opened != bool(new[0]["flags"] & 8):
        raise Violation("outline", f"{what}: closed: {opened}")
    got = segments([ufomodel.contour(new, m) for m in range(nm)], nm) or []
    want, got = moving(backwards(want)), moving(got)
    if len(want) != len(got):
        raise Violation("outline", f"{what}: {len(got)} segments instead of {len(want)}")
    why = None
    for k in range(1 if opened else max(len(got), 1)):
        why = matches(want, got[k:] + got[:k], limit)
        if why is None:
            return
    raise Violation("outline", f"{what}: {matches(want, got, limit)}")


def check(data, entries, limit, rec, what):
    """
    Check a result against the converted content: [(id, model, canonical bytes, context)].
    Returns the content of the result.
    """
    from vfbLib.vfb.vfb import Vfb

    try:
        frames = parse_frames(data)
    except FrameError as x:
        raise Violation("the result is damaged", f"{what}: {x}") from x
    entries = [e for e in entries if e[0] != 2008]
    if [e for e, _ in frames] != [e[0] for e in entries]:
        raise Violation("entries", f"{what}: {[e for e, _ in frames]}")
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(data))
    out = []
    for i, ((eid, payload), (_, model, canon, ctx)) in enumerate(zip(frames, entries)):
        if eid != 2001 or not any(n["type"] == "move" for n in model["nodes"]):
            if payload != canon:
                raise Violation("entry", f"{what}: entry {i} ({eid}) is changed")
            out.append((eid, model, canon, ctx))
            continue
        entry = vfb.entries[i]
        entry.decompile()
        nodes = entry.data["nodes"]
        new = {k: v for k, v in model.items() if k != "hints"} | {"nodes": nodes}
        canon = fontgen.encode(2001, new, ctx)
        if payload != canon:
            raise Violation("glyph", f"{what}: entry {i} ({model['name']}) is changed otherwise")
        old, conv = ufomodel.split(model["nodes"]), ufomodel.split(nodes)
        if len(old) != len(conv):
            raise Violation("outline", f"{what}: {model['name']} has {len(conv)} contours, not {len(old)}")
        for k, (a, b) in enumerate(zip(old, conv)):
            check_contour(a, b, ctx.nm, limit, f"{what}: {model['name']} contour {k}")
        for n in model["nodes"]:
            rec.probes[f"node {n['type']}"] += 1
        out.append((eid, new, canon, ctx))
    return out


def run(scn, rec):
    root = Path(rec.scratch) / "w"
    root.mkdir()
    font = fontgen.build(scn["spec"])
    content = [(it.eid, it.model, it.canon, it.ctx) for it in font.items]
    upm = next((it.model for it in font.items if it.eid == 1135), 1000)
    source = font.source()
    job = {"tool": "qu", "opts": [], "path": scn["path"], "name": scn["name"], "spec": scn["spec"]}
    place = cli.Place(root, job, source)
    out = place.out_dir / (scn["name"] + (".vfb" if scn["path"] else ".qu.vfb"))
    if not scn["path"]:
        out = place.src.with_suffix(".qu.vfb")
    else:
        out = (place.out_dir / place.src.name).with_suffix(".vfb")
    key = f"{'out' if scn['path'] else 'src'}/{out.name}"
    if scn["pre"] == "foreign":
        disk.write(out, b"a stranger's file")
    elif scn["pre"] == "other":
        disk.write(out, fontgen.build(fontgen.export_spec(fontgen.Random(scn["name"]), 2)).source())
    result = None  # content of the result at `out`, as long as it is known
    for k, s in enumerate(scn["steps"]):
        data, now = source, content
        if s["font"] == "result" and result is not None:
            rec.probe("convert the result")
            now = result
            data = disk.read(out)
        odd = False
        if s["damage"] and data is source:
            f = s["damage"][0]
            damaged = fontgen.build(scn["spec"])
            free = [i for i, it in enumerate(damaged.items) if it.eid not in (1, 10, 1503, 1269, 2, 1410)]
            i = free[f[0] % len(free)]
            b = damage(damaged.items[i].src, f)
            if b != damaged.items[i].src:
                damaged.items[i].src = b
                damaged.items[i].long = False
                data = damaged.source()
                odd = damaged.items[i].eid != 2008  # links are dropped
                rec.fault(f"damaged entry ({f[1]})")
        job["opts"] = s["opts"]
        place.data = data
        disk.write(place.src, data)
        force = bool(s["force"])
        before = place.tree()
        plan = {"seed": s["seed"], "cut": s["cut"], "soft": s["soft"]}
        n = 1
        if s["faults"]:
            plan["soft"] = 0
            n = p11.sub(length, place, force)
            # The dry run has written the same file
            if key in before:
                disk.write(out, before[key])
            elif out.exists():
                out.unlink()
        st, _, d = place.run(force, rec, plan, s["faults"], n)
        after = place.tree()
        fired = [(op, kind) for _, op, _, kind in d.fired]
        what = f"step {k} {s['opts']}, {len(now)} entries, {fired} -> {st}"
        rec.ev("converted", st.split()[0], cli.digest(after, root))
        if place.source_changed():
            raise Violation("the source is changed", what)
        if diff := cli.differ({a: b for a, b in before.items() if a != key},
                              {a: b for a, b in after.items() if a != key}):
            raise Violation("another file is changed", f"{what}: {diff}")
        outlines = any(e == 2001 and any(n["type"] == "move" for n in m["nodes"]) for e, m, _, _ in now)
        exists = key in before
        kinds = sorted({n["type"] for e, m, _, _ in now if e == 2001 for n in m["nodes"]})
        rec.state(font.ctx.nm, s["opts"], kinds, fired, exists, odd, st.split()[0])
        writing = any(op in ("open-w", "write", "close-w") for op, _ in fired)
        if st != "ok":
            if not fired and not odd and not (exists and not force and outlines):
                raise Violation("failure", what)
            if not writing and after != before:
                raise Violation("an existing result is changed", what)
            if after != before:
                result = None
            rec.probe("failed")
            continue
        if exists and not force and outlines and not odd:
            raise Violation("success without overwriting", what)
        if odd:
            if not decodable(data, [i])[0]:
                raise Violation("success", f"{what}: an entry can't be decoded")
            result = None
            rec.probe("damaged entry could be decoded")
            continue
        if not outlines:
            if after != before:
                raise Violation("a font without outlines is written", what)
            rec.probe("nothing to convert")
            continue
        limit = upm * float(s["opts"][1] if s["opts"] else 0.001)
        result = check(after[key], now, limit, rec, what)
        rec.probe(f"converted, {font.ctx.nm} masters")


def length(place, force):
    """Number of file operations."""
    _, _, d = place.run(force, Rec(), {})
    return d.n
