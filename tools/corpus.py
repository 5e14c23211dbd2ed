"""
Compares the reference encoders with the sample files of the repository: every entry is decoded
by the library and encoded again by sim.gens. Not part of any check.
"""

import sys, glob, collections

sys.path[:0] = ["/verif", "/repo/src"]
from sim import gens
from sim.wire import W
from vfbLib.vfb.vfb import Vfb
from copy import deepcopy
from pathlib import Path
import traceback

st = collections.Counter()
ex = {}
for f in sorted(glob.glob("/repo/Tests/Data/*.vfb")):
    v = Vfb(Path(f))
    v.read() if not v.entries else None
    raw = [
        (e.id, bytes(e.data) if isinstance(e.data, (bytes, bytearray)) else None)
        for e in v.entries
    ]
    v.decompile()
    nm = v.num_masters
    plat = "macos"
    for e in v.entries:
        if e.id == 10:
            plat = "windows" if "windows" in str(e.data) else "macos"
    c = gens.Ctx(plat, nm, 0, False)
    for e in v.entries:
        if e.id == 1269:
            c.stems = (len(e.data["ttStemsV"]), len(e.data["ttStemsH"]))
    for (i, data), e in zip(raw, v.entries):
        if data is None:
            st[(i, "loaded")] += 1
        if i not in gens.ALL:
            st[(i, "nogen")] += 1
            continue
        try:
            w = W(None)
            gens.ALL[i][1](w, deepcopy(e.data), c)
            b = w.get()
        except Exception as x:
            st[(i, "exc")] += 1
            ex.setdefault((i, "exc"), (f, repr(x)[:200], str(e.data)[:200]))
            continue
        if data is None:
            continue
        k = "same" if b == data else "diff"
        st[(i, k)] += 1
        if k == "diff":
            ex.setdefault(
                (i, k), (f, data.hex()[:120], b.hex()[:120], str(e.data)[:300])
            )
        if k == "diff" and i == 2001:
            kk = (
                "hints"
                if data.replace(bytes.fromhex("038b8b8b"), b"", 1) == b
                else "other"
            )
            st[(2001, kk)] += 1
            ex.setdefault(
                (2001, kk), (f, data.hex()[:1500], b.hex()[:1500], str(e.data)[:600])
            )
for k, n in sorted(st.items(), key=str):
    print(k, n)
for k, v in ex.items():
    print(k, *v, sep="\n   ")
