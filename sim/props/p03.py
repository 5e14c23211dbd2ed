"""P03: a failed save harms nothing but the file being written."""

import io
from copy import deepcopy
from pathlib import Path

from .. import disk, fontgen, ref
from ..core import Violation
from ..wire import same, where
from .p01 import hash_of, load

ID = "P03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = (
    "A random font with some entries decoded or edited, and a history of up to 6 save "
    "attempts, each with a failure drawn from: content that can't be encoded in a random "
    "entry (whole or one leaf), an error, full disk or crash at a random disk operation of "
    "the save, or a buffer that fails after a random number of bytes; over an existing or a "
    "new destination next to other files; then a save without failure."
)
STATES = "distinct (failure, disk operation, existing destination, size class, attempt) combinations"
REAL = ["vfbLib.vfb", "vfbLib.compilers"]
STUB = ["disk (sim.disk: events, faults, buffering by io.Buffered*)", "clock"]
ASSUMPTIONS = [
    "The destination itself may be torn by a disk fault or crash while it is written: "
    "Vfb.write doesn't promise atomic replacement.",
]


class Unencodable:
    """A value no compiler can encode."""

    def __repr__(self):
        return "<unencodable>"


# Entries whose compiler ignores (parts of) the data, or isn't there
IGNORES = {10}


def gen(r, tier):
    spec = fontgen.wild_spec(r, big=0.04, max_glyphs=2, max_font=6) if r.random() < 0.8 else (
        fontgen.export_spec(r, max_glyphs=3))
    ops = []
    for _ in range(r.choice((0, 2, 5))):
        k = r.random()
        if k < 0.3:
            ops.append(["dec"])
        elif k < 0.65:
            ops.append(["dece", r.randrange(1000)])
        elif k < 0.9:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
        else:
            ops.append(["com"])
    for _ in range(r.choice((1, 1, 2, 5))):
        k = r.random()
        if k < 0.3:
            ops.append(["poison", r.randrange(1000), r.choice(("whole", "leaf")), r.randrange(2**30),
                        r.choice(("file", "bytes"))])
        elif k < 0.5:
            ops.append(["buffer", r.random()])
        else:
            ops.append(["disk", {
                "seed": r.randrange(1, 2**30), "soft": r.choice((0, 0, 0.3)), "cut": r.randrange(2**30),
                "faults": [{"at": r.choice((0, 1, 1, 2, 2, 3, 4, 8)), "class": r.choice(("err", "err", "full", "crash")),
                            "sel": r.randrange(100)}]}])
        if r.random() < 0.3:
            ops.append(["dece", r.randrange(1000)])
        if r.random() < 0.2:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
    return {"spec": spec, "ops": ops, "existing": r.choice((None, 0, 7, 5000)),
            "others": r.randint(0, 2)}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def put(x, path, value):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = value


def in_memory(vfb, ents, what, skip=None):
    if [e.id for e in vfb.entries] != [m.eid for m in ents]:
        raise Violation("entries changed by a failed save", what)
    for i, (e, m) in enumerate(zip(vfb.entries, ents)):
        if i == skip:
            continue
        if isinstance(e.data, (bytes, bytearray)):
            if bytes(e.data) not in m.allowed():
                raise Violation("content changed by a failed save", f"{what}: entry {i} ({m.eid}): {bytes(e.data)[:40].hex()}")
        elif not same(m.model, e.data):
            raise Violation(
                "content changed by a failed save",
                f"{what}: entry {i} ({m.eid}): {where(m.model, e.data)}",
            )


class FailingBuffer(io.BytesIO):
    def __init__(self, limit):
        super().__init__()
        self.limit = limit

    def write(self, b):
        if self.tell() + len(b) > self.limit:
            raise OSError(28, "No space left on device")
        return super().write(b)


def run(scn, rec):
    font = fontgen.build(scn["spec"])
    ents = ref.entries_of(font)
    vfb = load("bytes", 0, font.source(), rec)
    ref.check_loaded(vfb, ents)
    ref.mark_auto(ents)
    nb = ref.size_of(ents)
    out = Path(rec.scratch) / "d" / "out.vfb"
    out.parent.mkdir()
    if scn["existing"] is not None:
        disk.write(out, b"\x05" * scn["existing"])
    for i in range(scn["others"]):
        disk.write(out.parent / f"other{i}.vfb", b"o" * 30)
    attempt = 0
    fixed = (1, 10, 1503, 1269, 2)
    for n, op in enumerate(scn["ops"] + [["final"]]):
        what = f"op {n} {op}"
        kind = op[0]
        if kind == "dec":
            vfb.decompile()
            for i, m in enumerate(ents):
                m.state = "dec"
                ref.check_model(vfb.entries[i], m, i, what)
        elif kind == "dece":
            i = op[1] % len(ents)
            vfb.entries[i].decompile()
            ents[i].state = "dec"
            ref.check_model(vfb.entries[i], ents[i], i, what)
        elif kind == "com":
            vfb.compile()
        elif kind == "set":
            free = [i for i, m in enumerate(ents) if m.eid not in fixed]
            if not free:
                continue
            i = free[op[1] % len(free)]
            m = ents[i]
            m.model, m.canon = fontgen.content(m.eid, op[2], m.item.ctx)
            vfb.entries[i].data = deepcopy(m.model)
            m.state = "dec"
        elif kind == "poison":
            attempt += 1
            i = op[1] % len(ents)
            m, e = ents[i], vfb.entries[i]
            keep = m.state
            if m.eid in IGNORES:
                continue
            bad = deepcopy(m.model)
            whole = op[2] == "whole"
            paths = list(leaves(bad))
            if whole or paths == [()] or not paths:
                whole = True
                bad = Unencodable()
            else:
                put(bad, paths[op[3] % len(paths)], Unencodable())
            old = deepcopy(e.data)
            e.data = bad
            before = disk.tree(out.parent)
            failed = None
            buf = io.BytesIO()
            try:
                with ref.bounded(ref.budget(nb, len(ents)), what):
                    if op[4] == "file":
                        vfb.write(out)
                    else:
                        vfb.write_bytes(buf)
            except Exception as x:
                if isinstance(x, Violation):
                    raise
                failed = type(x).__name__
            rec.ev(n, "poison", m.eid, op[2], failed)
            rec.state("poison", m.eid, whole, scn["existing"] is not None, attempt)
            if failed is None:
                if whole:
                    raise Violation("silent failure", f"{what}: entry {i} ({m.eid}) can't be encoded, but was saved")
                # This part of the content isn't stored
                rec.probe("unencodable leaf not stored")
                if op[4] == "file":
                    disk.write(out, b"")
                ents[i].state = "dec"
                for q, mm in enumerate(ents):
                    if q != i:
                        mm.state = "maybe" if mm.state == "raw" and mm.eid in ref.AUTO else mm.state
            else:
                rec.fault(f"unencodable content ({'entry' if whole else 'leaf'})")
                if disk.tree(out.parent) != before:
                    raise Violation("file changed by a save that can't be encoded", what)
                in_memory(vfb, ents, what, skip=i)
                now = e.data
                if whole and now is not bad:
                    raise Violation("content changed by a failed save", f"{what}: entry {i} ({m.eid})")
                if not whole and (isinstance(now, bytes) or type(now) is not type(bad)):
                    raise Violation("content changed by a failed save", f"{what}: entry {i} ({m.eid})")
            # The cause is gone
            e.data = old
            m.state = keep
        elif kind == "buffer":
            attempt += 1
            buf = FailingBuffer(int(op[1] * (nb + 44)))
            try:
                vfb.write_bytes(buf)
                rec.ev(n, "buffer", "ok")
            except OSError:
                rec.fault("ENOSPC in buffer")
                rec.ev(n, "buffer", "failed")
            in_memory(vfb, ents, what)
        elif kind == "disk":
            attempt += 1
            plan = op[1]
            before = disk.tree(out.parent)
            error = None
            with disk.Disk(rec, plan) as d:
                d.plan(plan["faults"], 4)
                try:
                    vfb.write(out)
                except disk.SimCrash as x:
                    error = x
                except OSError as x:
                    error = x
            after = disk.tree(out.parent)
            for k in set(before) | set(after):
                if k == "out.vfb":
                    continue
                if k not in before and isinstance(error, disk.SimCrash):
                    # A temporary file may remain after a crash
                    (out.parent / k).unlink()
                elif before.get(k) != after.get(k):
                    raise Violation("another file changed", f"{what}: {k}")
            ops = [f[1] for f in d.fired]
            rec.ev(n, "disk", ops, type(error).__name__, d.n)
            rec.state("disk", tuple(ops[:2]), tuple(f[3] for f in d.fired[:1]), scn["existing"], nb > 8192, attempt)
            if d.fired and error is None:
                raise Violation("disk error not reported", f"{what}: {d.fired[0]}")
            if not d.fired:
                if error is not None:
                    raise error
                ref.check_saved(after["out.vfb"], ents, font.header, what)
            if isinstance(error, disk.SimCrash):
                # A new process finds the other files; it may load what was written
                continue
            in_memory(vfb, ents, what)
        else:
            data = ref.save(vfb, "file", out.parent)
            ref.check_saved(data, ents, font.header, what)
            rec.ev(n, "final", hash_of(data))
            vfb2 = load("bytes", 0, data, rec)
            vfb2.decompile()
            for i, m in enumerate(ents):
                ref.check_model(vfb2.entries[i], m, i, "after the last save")
