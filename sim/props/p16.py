"""P16: the JSON dump of a file is complete and faithful."""

import json
import os
from pathlib import Path

from .. import cli, disk, fontgen
from ..core import Rec, Violation
from ..names import NAMES
from ..ref import AUTO
from ..wire import same, where
from . import p11
from .p05 import damage

ID = "P16"
LEVEL = "fault_enumeration"
RUNS = {"quick": 8000, "thorough": 120000}
RULE = (
    "vfb2json with random options dumps a random font (any legal content, also damaged entries) "
    "that is read with short and interrupted reads, over nothing, a stranger's file, or the "
    "dump of another font, with a read fault in part of the runs, up to 3 times in one process. "
    "The dump is compared with the reference model; after a failure, the existing file must be "
    "as it was."
)
STATES = "distinct (options, faults, existing file, status, first differing entry types) tuples"
REAL = ["vfbLib and its command line functions", "orjson"]
STUB = p11.STUB
ASSUMPTIONS = [
    "Text in VFB files is in code page 1252.",
    "A file that ends within an entry is treated as if it ended before that entry (P04), which "
    "only the log shows.",
]
DAMAGE = ("cut", "cut", "extend", "flip", "fill", "ff", "random")


def gen(r, tier):
    steps = []
    specs = [fontgen.wild_spec(r, max_font=8, max_glyphs=3, big=0.02) if r.random() < 0.65 else
             fontgen.export_spec(r, max_glyphs=4) for _ in range(r.choice((1, 1, 2)))]
    for _ in range(r.choice((1, 1, 2, 3))):
        opts = [f for f in ("-d", "-r") if r.random() < 0.3] + (
            ["--header"] if r.random() < 0.06 else [])
        s = {"font": r.randrange(len(specs)), "opts": opts, "soft": r.choice((0, 0.1, 0.5)),
             "seed": r.randrange(1, 10**6), "faults": [], "damage": [],
             "pre": r.choice(("no", "keep", "keep", "other", "long"))}
        if r.random() < 0.25:
            s["faults"] = [{"at": r.random(), "class": r.choice(("err", "crash")),
                            "sel": r.randrange(60)}]
        if r.random() < 0.25:
            s["damage"] = [[r.randrange(1000), r.choice(DAMAGE), r.random(), r.randrange(2**30)]]
        steps.append(s)
    return {"specs": specs, "steps": steps, "path": int(r.random() < 0.6),
            "name": r.choice(cli.NAMES)}


def to_json(x):
    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return None
    return x


def check_entry(i, e, it, opts, what):
    name = NAMES.get(it.eid, str(it.eid))
    if e.get("key") != name:
        raise Violation("name", f"{what}: entry {i} ({it.eid}) is called {e.get('key')!r}, not {name!r}")
    decoded = {"key": name, "decompiled": to_json(it.model)}
    raws = [{"key": name, "size": len(b), "decompiled": b.hex()}
            for b in ({it.canon} if "-r" in opts else {it.src})]
    if "-d" not in opts:
        want = [decoded]
    else:
        want = raws + ([decoded] if it.eid in AUTO and "-r" not in opts else [])
    if not any(list(w) and same(w, e) for w in want):
        raise Violation("entry", f"{what}: entry {i} ({it.eid}): {where(want[0], e)}")


def check_dump(data, font, opts, what, odd=(), shown=None):
    try:
        doc = json.loads(data)
    except ValueError as x:
        raise Violation("not JSON", f"{what}: {x}") from x
    if sorted(doc) != ["entries", "header"]:
        raise Violation("structure", f"{what}: {sorted(doc)}")
    h = doc["header"].get("decompiled")
    if isinstance(h, str):
        if "-d" not in opts and "--header" not in opts:
            raise Violation("header", f"{what}: not decoded")
        if not h or not font.header_src.hex().startswith(h[:16]):
            raise Violation("header", f"{what}: {h}")
    else:
        for k, v in font.header.items():
            if h.get(k) != v:
                raise Violation("header", f"{what}: {k}: {h.get(k)!r} instead of {v!r}")
    entries = doc["entries"]
    if "--header" in opts:
        if entries:
            raise Violation("entries with --header", f"{what}: {len(entries)}")
        return
    if len(entries) != len(font.items):
        raise Violation("entries", f"{what}: {len(entries)} instead of {len(font.items)}")
    for i, (e, it) in enumerate(zip(entries, font.items)):
        if i not in odd:
            check_entry(i, e, it, opts, what)
        elif "-r" not in opts:
            name = NAMES.get(it.eid, str(it.eid))
            if e.get("key") != name:
                raise Violation("name", f"{what}: {e.get('key')!r}")
            if "-d" in opts:
                want = {"key": name, "size": len(it.src), "decompiled": it.src.hex()}
                if not same(want, e):
                    raise Violation("damaged entry", f"{what}: {where(want, e)}")


def decodable(data, odd):
    """Whether the library itself can decode these entries, and save them again."""
    from io import BytesIO

    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    v.read_bytes(BytesIO(data))
    res = [True, True]
    for i in odd:
        try:
            v.entries[i].decompile()
        except Exception:
            return [False, False]
        try:
            v.entries[i].compile()
            v.entries[i].decompile()
        except Exception:
            res[1] = False
    return res


def run(scn, rec):
    root = Path(rec.scratch) / "w"
    root.mkdir()
    total = None
    for n, s in enumerate(scn["steps"]):
        font = fontgen.build(scn["specs"][s["font"] % len(scn["specs"])])
        odd = set()
        free = [i for i, it in enumerate(font.items) if it.eid not in (1, 10, 1503, 1269, 2, 1410)]
        for f in s["damage"]:
            if free:
                i = free[f[0] % len(free)]
                b = damage(font.items[i].src, f)
                if b != font.items[i].src:
                    font.items[i].src = b
                    font.items[i].long = False
                    odd.add(i)
                    rec.fault(f"damaged entry ({f[1]})")
        data = font.source()
        job = {"tool": "json", "opts": s["opts"], "path": scn["path"], "name": scn["name"]}
        place = cli.Place(root, job, data)
        target = place.out_dir / (scn["name"] + ".vfb.json")
        if s["pre"] == "other":
            disk.write(target, b'{"header": "mine"}')
        elif s["pre"] == "long":
            disk.write(target, b"[" + b"1, " * 100000 + b"1]\n")
        elif s["pre"] == "no" and target.exists():
            os.unlink(target)
        before = place.tree()
        ok, again = decodable(data, sorted(odd)) if odd else (True, True)
        plan = {"seed": s["seed"], "soft": s["soft"]}
        faults = []
        if s["faults"]:
            # Only reading fails: what happens when writing fails is P11
            dry = place_dry(place, s["opts"])
            faults = [{**f, "at": int(f["at"] * max(dry, 1))} for f in s["faults"]]
            plan["soft"] = 0
        st, out, d = place.run(False, rec, plan, faults, 1)
        rec.ev("step", n, s["opts"], sorted(odd), ok, st.split()[0])
        rec.state(s["opts"], [k for _, _, _, k in d.fired], s["pre"], st.split()[0],
                  sorted({font.items[i].eid for i in odd}))
        what = f"step {n}: {s['opts']}, damaged {sorted(odd)}, {d.fired}"
        tree = place.tree()
        if place.source_changed():
            raise Violation("the source is changed", what)
        key = ("out/" if scn["path"] else "src/") + target.name
        needs = "--header" not in s["opts"] and ("-d" not in s["opts"] or "-r" in s["opts"])
        fails = bool(d.fired)
        if odd and needs:
            # Entries that can be decoded in spite of the damage, but not encoded again
            if not ok:
                fails = True
            elif not again and "-r" in s["opts"]:
                rec.probe("damaged entry can't be encoded")
                fails = None
        if fails is None:
            fails = st != "ok"
        if fails:
            if st == "ok":
                raise Violation("success", f"{what}: the font can't be read and decoded")
            if diff := cli.differ(before, tree):
                raise Violation("existing files are changed", f"{what} -> {st}: {diff}")
            rec.probe("failed")
            continue
        if st != "ok":
            raise Violation("failure", f"{what}: {st}")
        rec.probe("dumped")
        if key not in tree:
            raise Violation("no dump", what)
        rest = {k: v for k, v in tree.items() if k != key}
        if diff := cli.differ({k: v for k, v in before.items() if k != key}, rest):
            raise Violation("other files are changed", f"{what}: {diff}")
        check_dump(tree[key], font, s["opts"], what, odd)
        rec.ev("dump", cli.digest({key: tree[key]}))


def place_dry(place, opts):
    """Number of file operations that read."""
    rec = Rec()
    keep = place.tree()
    _, _, d = place.run(False, rec, {})
    n = next((i for i, (op, _) in enumerate(d.log) if op == "open-w"), len(d.log))
    # Restore what was there
    for k, v in place.tree().items():
        if v is not None and keep.get(k) != v:
            p = place.root / k
            if k in keep:
                disk.write(p, keep[k])
            else:
                os.unlink(p)
    return n
