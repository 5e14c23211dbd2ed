"""
Reference codec for the VFB container and for every entry type, written from the
documentation of the format. It shares no code with vfbLib: this is the model the
simulated histories are compared with.

W writes values either canonically (what a save writes for decoded content) or with
legal variations (long form numbers, different section order ...), as found in files of
other writers.
"""

from random import Random
from struct import pack, unpack

HEADER = bytes.fromhex("1a574c46313003") + b"\x01" + (44).to_bytes(4, "little") + bytes(32)
END_ID = 2


class W:
    def __init__(self, noise: Random | None = None, p: float = 0.15):
        self.b = bytearray()
        self.noise = noise
        self.p = p

    def flip(self, p=None) -> bool:
        return self.noise is not None and self.noise.random() < (
            self.p if p is None else p
        )

    def val(self, v: int, signed=True, long=False):
        v = int(v)
        if long or self.flip():
            self.b += b"\xff" + pack(">i" if signed else ">I", v)
        elif -107 <= v <= 107:
            self.b.append(v + 139)
        elif 107 < v <= 1131:
            d = v - 108
            self.b += bytes((247 + (d >> 8), d & 255))
        elif -1131 <= v < -107:
            d = -v - 108
            self.b += bytes((251 + (d >> 8), d & 255))
        else:
            self.b += b"\xff" + pack(">i" if signed else ">I", v)

    def uval(self, v: int):
        self.val(v, signed=False)

    def u8(self, v):
        self.b += v.to_bytes(1, "little")

    def s8(self, v):
        self.b += v.to_bytes(1, "little", signed=True)

    def u16(self, v):
        self.b += v.to_bytes(2, "little")

    def s16(self, v):
        self.b += v.to_bytes(2, "little", signed=True)

    def u32(self, v):
        self.b += v.to_bytes(4, "little")

    def s32(self, v):
        self.b += v.to_bytes(4, "little", signed=True)

    def dbl(self, v):
        self.b += pack("<d", v)

    def raw(self, data: bytes):
        self.b += data

    def s(self, text: str):
        self.b += text.encode("cp1252")

    def lens(self, text: str):
        e = text.encode("cp1252")
        self.val(len(e))
        self.b += e

    def get(self) -> bytes:
        return bytes(self.b)


def frame(eid: int, payload: bytes, long=False, declared: int | None = None) -> bytes:
    n = len(payload) if declared is None else declared
    if long or n > 0xFFFF:
        return pack("<HI", eid | 0x8000, n) + payload
    return pack("<HH", eid, n) + payload


class FrameError(Exception):
    pass


def parse_frames(data: bytes, num_masters: int | None = None):
    """
    Independent parser of the container: returns [(eid, payload)]. Raises FrameError if
    the file isn't well-formed in the form a save writes: the header, then entries with
    the size field in its shortest form, and nothing behind the last entry.
    """
    if len(data) < 44:
        raise FrameError("short header")
    if data[:4] != HEADER[:4] or data[8:12] != (44).to_bytes(4, "little"):
        raise FrameError("bad header")
    pos = 44
    out = []
    while pos < len(data):
        if pos + 4 > len(data):
            raise FrameError(f"incomplete entry header at {pos}")
        raw = int.from_bytes(data[pos : pos + 2], "little")
        pos += 2
        if raw & 0x8000:
            if pos + 4 > len(data):
                raise FrameError(f"incomplete entry header at {pos}")
            size = int.from_bytes(data[pos : pos + 4], "little")
            pos += 4
            if size <= 0xFFFF:
                raise FrameError(f"long size field for {size} bytes at {pos}")
        else:
            size = int.from_bytes(data[pos : pos + 2], "little")
            pos += 2
        eid = raw & 0x7FFF
        payload = data[pos : pos + size]
        if len(payload) != size:
            raise FrameError(f"entry {eid}: {size} bytes declared, {len(payload)} found")
        pos += size
        out.append((eid, payload))
    return out


def read_val(data: bytes, pos: int, signed=True):
    b = data[pos]
    if 0x20 <= b < 0xF7:
        return b - 139, pos + 1
    if 0xF7 <= b <= 0xFA:
        return (b - 247) * 256 + data[pos + 1] + 108, pos + 2
    if 0xFB <= b <= 0xFE:
        return -(b - 251) * 256 - data[pos + 1] - 108, pos + 2
    if b == 0xFF:
        return unpack(">i" if signed else ">I", data[pos + 1 : pos + 5])[0], pos + 5
    raise ValueError(b)


def norm(x):
    """Content without the difference between tuples and lists."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def same(a, b) -> bool:
    """Equality of decoded content: types matter, except tuple/list and int/float."""
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and len(a) == len(b)
            and all(k in b and same(v, b[k]) for k, v in a.items())
        )
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return a == b
    return type(a) is type(b) and a == b


def where(a, b, path=""):
    """A short description of the first difference."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k} missing"
            if not same(a[k], b[k]):
                return where(a[k], b[k], f"{path}/{k}")
        for k in b:
            if k not in a:
                return f"{path}/{k} unexpected"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items expected, {len(b)} found"
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, f"{path}/{i}")
    return f"{path}: expected {a!r:.120}, found {b!r:.120}"
