"""
Reference model of a font object: what the content of every entry is, and which bytes a
save may write for it. Independent of the library's data structures.
"""

from contextlib import contextmanager
from io import BytesIO

from . import disk, fontgen
from .core import STEPS, Violation
from .wire import FrameError, parse_frames, same, where

AUTO = {10, 1503, 1269}  # decoded while loading
GLYPH_ACCESS = {2001, 2008, 2010, 1093}  # decoded when glyphs are accessed


class E:
    """One entry: the bytes it was loaded from, its content, the bytes for its content."""

    __slots__ = ("eid", "src", "canon", "model", "state", "long", "declared", "item")

    def __init__(self, eid, src, canon, model, state="raw", long=False, declared=None, item=None):
        self.eid = eid
        self.src = src
        self.canon = canon
        self.model = model
        self.state = state  # raw: never decoded; maybe: not by us; dec: decoded
        self.long = long
        self.declared = declared
        self.item = item

    def allowed(self):
        if self.state == "raw":
            return (self.src,)
        if self.state == "maybe":
            return (self.src, self.canon)
        return (self.canon,)


def entries_of(font):
    return [
        E(it.eid, it.src, it.canon, it.model, long=it.long, declared=it.declared, item=it)
        for it in font.items
    ]


@contextmanager
def bounded(steps, what="operation"):
    """Library steps (calls and loop iterations) the operation may take."""
    STEPS.arm(int(steps))
    try:
        yield
    except BaseException as x:
        if type(x).__name__ == "BudgetExceeded":
            raise Violation("too many steps", f"{what}: more than {int(steps)} steps, {x}") from x
        raise
    finally:
        STEPS.disarm()


def budget(nbytes, entries=1):
    return 60_000 + 3_000 * entries + 400 * nbytes


def check_loaded(vfb, ents, what="load"):
    """The loaded object has exactly these entries, in order."""
    got = [e.id for e in vfb.entries]
    want = [e.eid for e in ents]
    if got != want:
        raise Violation("entries", f"{what}: entries {got[:60]} instead of {want[:60]}")


def check_raw(vfb, ents, what="load"):
    """Entries that are not decoded hold the bytes of the source."""
    for i, (e, m) in enumerate(zip(vfb.entries, ents)):
        if isinstance(e.data, (bytes, bytearray)) and bytes(e.data) not in m.allowed():
            raise Violation(
                "entry bytes", f"{what}: entry {i} ({m.eid}) holds {bytes(e.data)[:60].hex()}, "
                f"not {m.src[:60].hex()}",
            )


def check_model(e, m, i, what):
    """The content of a decoded entry."""
    if isinstance(e.data, (bytes, bytearray)):
        raise Violation("not decoded", f"{what}: entry {i} ({m.eid})")
    if not same(m.model, e.data):
        raise Violation(
            "content", f"{what}: entry {i} ({m.eid}) shows other content: {where(m.model, e.data)}"
        )


def check_saved(data, ents, header, what="save", strict_end=True):
    """The saved file: header, every entry, in order; returns the written payloads."""
    try:
        frames = parse_frames(data)
    except FrameError as x:
        raise Violation("malformed file", f"{what}: {x}") from x
    check_header(data, header, what)
    got = [eid for eid, _ in frames]
    want = [m.eid for m in ents]
    if got != want:
        raise Violation("saved entries", f"{what}: entries {got[:60]} instead of {want[:60]}")
    for i, ((_, payload), m) in enumerate(zip(frames, ents)):
        if payload not in m.allowed():
            w = m.allowed()[-1]
            k = next((j for j, (a, b) in enumerate(zip(payload, w)) if a != b), min(len(payload), len(w)))
            raise Violation(
                "saved bytes", f"{what}: entry {i} ({m.eid}, {m.state}): {len(payload)} bytes "
                f"instead of {len(w)}, first difference at {k}: "
                f"{payload[max(k - 4, 0):k + 12].hex()} instead of {w[max(k - 4, 0):k + 12].hex()}",
            )
    return [p for _, p in frames]


def check_header(data, header, what):
    """The fixed part of the file header."""
    want = fontgen.header_bytes(header["version_minor"])
    if data[: len(want)] != want:
        raise Violation("header", f"{what}: {data[:len(want)].hex()} instead of {want.hex()}")


def settle(ents, payloads):
    """After a save: the entries are now what was written."""
    for m, p in zip(ents, payloads):
        m.src = p
        m.state = "raw"
        m.long = False


def mark_auto(ents):
    for m in ents:
        if m.eid in AUTO and m.state == "raw":
            m.state = "maybe"


def mark_glyph_access(ents):
    for m in ents:
        if m.eid in GLYPH_ACCESS and m.state == "raw":
            m.state = "maybe"


def save(vfb, how, scratch, name="out.vfb"):
    """Save with one of the library's two ways, and return the bytes."""
    if how == "file":
        from pathlib import Path

        path = Path(scratch) / name
        vfb.write(path)
        return disk.read(path)
    # What is in the buffer before the current position belongs to somebody else
    mine = b"0123456789"
    buf = BytesIO(mine)
    buf.seek(len(mine))
    vfb.write_bytes(buf)
    data = buf.getvalue()
    if not data.startswith(mine):
        raise Violation("buffer overwritten", "saving has overwritten what was in the buffer")
    if buf.tell() != len(data):
        raise Violation("buffer position", f"at {buf.tell()} instead of the end after saving")
    return data[len(mine) :]


def size_of(ents):
    return sum(len(m.src) + len(m.canon) for m in ents)
