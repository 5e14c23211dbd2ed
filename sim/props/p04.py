"""P04: damaged or failing input gives an error or exactly the intact entries."""

from io import BytesIO
from pathlib import Path

from .. import disk, fontgen, ref
from ..core import Violation, stream
from .p01 import hash_of

ID = "P04"
LEVEL = "fault_enumeration"
RUNS = {"quick": 8000, "thorough": 120000}
RULE = (
    "A random font whose file is truncated at a random length, has random bytes flipped, "
    "overwritten, inserted or removed, or whose reading fails after a random number of "
    "bytes (error on open, read or close), loaded from a file, a buffer or a stream with "
    "short reads and EINTR, by a new object or one that has held another font; then the "
    "object loads a good file."
)
STATES = "distinct (damage, part of the file, way of loading, outcome) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers.header", "vfbLib.vfb.entry"]
STUB = ["disk and streams (sim.disk)", "clock"]
ASSUMPTIONS = [
    "Damage that still is a well-formed file of other entries can't be recognised; those "
    "entries are then the content of the file.",
]


def gen(r, tier):
    k = r.random()
    spec = fontgen.wild_spec(r, big=0.03, max_glyphs=2, max_font=6)
    damage = []
    for _ in range(r.choice((1, 1, 1, 2, 4))):
        k = r.random()
        where = r.choice(("any", "any", "header", "frame", "end"))
        if k < 0.4:
            damage.append(["trunc", where, r.random(), r.randrange(8)])
        elif k < 0.6:
            damage.append(["flip", where, r.random(), r.randrange(1, 256)])
        elif k < 0.7:
            damage.append(["fill", where, r.random(), r.randint(1, 300), r.choice((0, 255, 8, -1))])
        elif k < 0.78:
            damage.append(["insert", where, r.random(), r.randint(1, 9)])
        elif k < 0.85:
            damage.append(["remove", where, r.random(), r.randint(1, 9)])
    io = None
    if not damage or r.random() < 0.15:
        io = {"seed": r.randrange(1, 2**30), "soft": r.choice((0, 0.3)),
              "faults": [{"at": r.choice((0, 1, 1, 2, 3, 5, 9)), "class": "err", "sel": r.randrange(9)}]}
    return {
        "spec": spec, "faults": damage, "disk": io, "how": r.choice(("file", "file", "bytes", "stream")),
        "soft": r.choice((0, 0.3, 0.8)), "fail_at": r.choice((None, None, None, r.random())),
        "bufsize": r.choice((1, 2, 5, 64, 8192)), "seed": r.randrange(2**30), "used": r.random() < 0.4,
    }


def position(where, x, font, n):
    """A byte position in the file."""
    b = font.bounds()
    if where == "header" or not b:
        return int(x * 44)
    if where == "frame":
        start, end = b[int(x * len(b))]
        return start + int((x * 7919) % 1 * 6)
    if where == "end":
        start, end = b[int(x * len(b))]
        return max(0, min(n, end - int((x * 7919) % 1 * 4)))
    return int(x * n)


def damaged(font, data, faults, seed):
    r = stream("damage", seed)
    parts = []
    for f in faults:
        p = min(position(f[1], f[2], font, len(data)), max(len(data) - 1, 0))
        parts.append((f[0], p))
        if f[0] == "trunc":
            data = data[:p]
        elif f[0] == "flip" and p < len(data):
            data = data[:p] + bytes([data[p] ^ f[3]]) + data[p + 1 :]
        elif f[0] == "fill":
            n = min(f[3], len(data) - p)
            fill = r.randbytes(n) if f[4] < 0 else bytes([f[4]]) * n
            data = data[:p] + fill + data[p + n :]
        elif f[0] == "insert":
            data = data[:p] + r.randbytes(f[3]) + data[p:]
        elif f[0] == "remove":
            data = data[:p] + data[p + f[3] :]
    return data, parts


def reference(data):
    """
    The complete entries in a file, by the format: header, then id, size, data until the
    end entry or the end of the file. (entries, certain)
    """
    if len(data) < 13 - 1:
        return [], True
    pos = int.from_bytes(data[8:12], "little")
    out = []
    nm = 0
    certain = True
    while True:
        if pos + 2 > len(data):
            break
        raw = int.from_bytes(data[pos : pos + 2], "little")
        n = 4 if raw & 0x8000 else 2
        if pos + 2 + n > len(data):
            break
        size = int.from_bytes(data[pos + 2 : pos + 2 + n], "little")
        eid = raw & 0x7FFF
        pos += 2 + n
        if eid == 1410:
            size = 8 + nm * 2
        if pos + size > len(data):
            break
        payload = data[pos : pos + size]
        out.append((eid, payload))
        pos += size
        if eid == 1503:
            if size == 2:
                nm = int.from_bytes(payload, "little")
            else:
                certain = False
        if eid == 2:
            break
    return out, certain


def run(scn, rec):
    from vfbLib.vfb.vfb import Vfb

    font = fontgen.build(scn["spec"])
    good = font.source()
    ents = ref.entries_of(font)
    data, parts = damaged(font, good, scn["faults"], scn["seed"])
    for kind, _ in parts:
        rec.fault({"trunc": "truncated file", "flip": "flipped byte", "fill": "overwritten bytes",
                   "insert": "inserted bytes", "remove": "lost bytes"}[kind])
    vfb = Vfb(timing=False)
    if scn["used"]:
        vfb.read_bytes(BytesIO(good))
        vfb.decompile()
    how = scn["how"]
    fired = False
    path = Path(rec.scratch) / "in.vfb"
    error = None
    with ref.bounded(ref.budget(len(data), 40), "load of damaged file"):
        try:
            if how == "file":
                disk.write(path, data)
                with disk.Disk(rec, {**(scn["disk"] or {}), "soft": scn["soft"], "seed": scn["seed"] + 1}) as d:
                    if scn["disk"]:
                        d.plan(scn["disk"]["faults"], 4)
                    try:
                        if scn["used"]:
                            vfb.vfb_path = path
                            vfb.read()
                        else:
                            vfb = Vfb(path, timing=False)
                    finally:
                        fired = bool(d.fired)
            elif how == "bytes":
                vfb.read_bytes(BytesIO(data))
            else:
                at = None if scn["fail_at"] is None else int(scn["fail_at"] * len(data))
                raw = disk.SimStream(data, rec, scn["seed"], scn["soft"], at)
                try:
                    vfb.read_bytes(disk.buffered(raw, scn["bufsize"]))
                finally:
                    fired = raw.failed
        except Exception as x:
            error = x
    rec.ev("load", how, len(data), type(error).__name__, len(vfb.entries))
    for kind, p in parts or [("none", 0)]:
        rec.state(kind, min(p, 44), how, type(error).__name__, fired)
    if error is None:
        if fired:
            raise Violation("read error not reported", f"{how}, {len(vfb.entries)} entries")
        want, certain = reference(data)
        check(vfb, want, certain)
        if certain:
            again(vfb, want)
        rec.probe("damaged file loaded")
    else:
        rec.probe("damaged file refused")
        if not scn["faults"] and not fired:
            raise error
    # The object is still good
    if vfb is None:
        vfb = Vfb(timing=False)
    with ref.bounded(ref.budget(len(good), len(ents)), "load of a good file"):
        vfb.read_bytes(BytesIO(good))
    ref.check_loaded(vfb, ents, "good file after the damaged one")
    ref.mark_auto(ents)
    ref.check_raw(vfb, ents, "good file after the damaged one")
    with ref.bounded(ref.budget(ref.size_of(ents), len(ents)), "decode of a good file"):
        vfb.decompile()
    if vfb.any_errors:
        raise Violation("error flag", "good file after the damaged one")
    for i, m in enumerate(ents):
        m.state = "dec"
        ref.check_model(vfb.entries[i], m, i, "good file after the damaged one")
    out = ref.save(vfb, "bytes", rec.scratch)
    ref.check_saved(out, ents, font.header, "good file after the damaged one")
    rec.ev("good", hash_of(out))


def check(vfb, want, certain):
    got = [e.id for e in vfb.entries]
    if not certain:
        return
    if got != [e for e, _ in want]:
        raise Violation("entries", f"{got[:40]} instead of {[e for e, _ in want][:40]}")
    for i, (e, (eid, payload)) in enumerate(zip(vfb.entries, want)):
        if isinstance(e.data, (bytes, bytearray)):
            if bytes(e.data) != payload:
                raise Violation(
                    "entry bytes", f"entry {i} ({eid}): {len(e.data)} bytes {bytes(e.data)[:40].hex()} "
                    f"instead of {len(payload)} bytes {payload[:40].hex()}")
        elif eid not in ref.AUTO:
            raise Violation("decoded while loading", f"entry {i} ({eid})")


def again(vfb, want):
    """What was loaded can be saved: entries that weren't decoded keep their bytes."""
    buf = BytesIO()
    try:
        vfb.write_bytes(buf)
    except Exception:
        # An entry that is decoded while loading may hold data that can't be encoded
        if not any(not isinstance(e.data, (bytes, bytearray)) for e in vfb.entries):
            raise
        return
    frames = ref.parse_frames(buf.getvalue())
    if len(frames) != len(want):
        raise Violation("saved entries", f"{len(frames)} instead of {len(want)}")
    for i, ((eid, payload), (weid, wpay)) in enumerate(zip(frames, want)):
        if eid != weid or (eid not in ref.AUTO and payload != wpay):
            raise Violation("saved bytes", f"entry {i} ({weid}) after loading a damaged file")
