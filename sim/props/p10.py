"""P10: existing output is overwritten only on request."""

import os
import shutil
from pathlib import Path

from .. import cli, disk, fontgen
from ..core import Violation
from . import p11
from .p11 import converted, faulty, sub

ID = "P10"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1800, "thorough": 36000}
RULE = (
    "A history of 1 to 4 conversions of different fonts of the same name with different "
    "options into the same folder, with and without overwriting, some of them cut short by "
    "an error or a crash, some with something of a stranger at an output location (file, "
    "folder, empty folder, incomplete UFO) put there before. Each conversion is compared "
    "with the same conversion into empty folders."
)
STATES = "distinct (tool, options, forced, kinds of existing outputs, status) tuples"
REAL = p11.REAL
STUB = p11.STUB
ASSUMPTIONS = [
    "No file <name>.zip lies where <name>.ufoz is written (fontTools uses that name in between).",
    "A folder where a file is to be written, or the reverse, may be reported as an error.",
]
KINDS = ("file", "folder", "empty", "part", "damage", "extra")


def gen(r, tier):
    steps = []
    family = r.choice(("ufo", "ufo", "ufo", "qu"))
    path = int(r.random() < 0.6)
    name = r.choice(cli.NAMES)
    fonts = [cli.gen_spec(r, family, 3) for _ in range(r.choice((1, 2, 2, 3)))]
    opts = cli.gen_options(r, family)
    for _ in range(r.choice((1, 2, 2, 3, 4))):
        if r.random() < 0.4:
            opts = cli.gen_options(r, family)
        s = {"tool": family, "opts": opts, "font": r.randrange(len(fonts)),
             "force": int(r.random() < 0.5), "plants": [], "faults": []}
        if family == "ufo" and r.random() < 0.05:
            s |= {"tool": "json", "opts": []}
        if r.random() < 0.4:
            s["plants"] = [[r.choice(KINDS), r.randrange(100), r.randrange(1000)]
                           for _ in range(r.choice((1, 1, 2)))]
        if r.random() < 0.25:
            s["faults"] = [{"at": r.random() if r.random() < 0.6 else 1 - 0.15 * r.random(),
                            "class": r.choice(("err", "full", "crash")), "sel": r.randrange(60)}]
            s["seed"] = r.randrange(1, 10**6)
            s["cut"] = r.randrange(10**6)
        steps.append(s)
    return {"fonts": fonts, "history": steps, "path": path, "name": name,
            "foreign": r.sample(range(len(p11.FOREIGN)), r.choice((0, 0, 2, 4)))}


def plant(root, key, kind, sel, base):
    """Put something at the location of an output."""
    p = root / key
    if kind in ("part", "damage", "extra"):
        # The output itself, but incomplete, with other content, or with more files
        if not p.exists():
            for k, v in cli.below(base, key).items():
                q = root / k
                if v is None:
                    q.mkdir(parents=True, exist_ok=True)
                elif isinstance(v, bytes):
                    q.parent.mkdir(parents=True, exist_ok=True)
                    disk.write(q, v)
                else:
                    disk.write(q, b"PK\x05\x06" + bytes(18))
        files = sorted(x for x in p.rglob("*") if x.is_file()) if p.is_dir() else [p]
        if not files:
            return
        f = files[sel % len(files)]
        if kind == "part":
            if p.is_dir():
                f.unlink()
            else:
                disk.write(p, disk.read(p)[: sel % 50])
        elif kind == "damage":
            disk.write(f, b"\xff damaged")
        else:
            e = (p / f"extra {sel}.glif") if p.is_dir() else p
            disk.write(e, b"extra")
        return
    if p.exists():
        if p.is_dir():
            shutil.rmtree(p)
        else:
            p.unlink()
    if kind == "file":
        disk.write(p, b"not yours")
    else:
        p.mkdir()
        if kind == "folder":
            disk.write(p / "mine.txt", b"not yours")


def run(scn, rec):
    root = Path(rec.scratch) / "w"
    clean = Path(rec.scratch) / "c"
    root.mkdir()
    clean.mkdir()
    data = [fontgen.build(s).source() for s in scn["fonts"]]
    jobs = [{"tool": s["tool"], "opts": s["opts"], "spec": None, "name": scn["name"],
             "path": scn["path"]} for s in scn["history"]]
    stem = scn["name"]
    results = {}
    for n, (s, job) in enumerate(zip(scn["history"], jobs)):
        src = data[s["font"] % len(data)]
        key = (s["tool"], tuple(s["opts"]), s["font"])
        if key not in results:
            results[key] = sub(converted, clean, job, src, False)
            p11.empty(clean)
        st0, base, total = results[key]
        tops = cli.tops(base)
        place = cli.Place(root, job, src)
        if n == 0:
            for i in scn["foreign"]:
                p = place.out_dir / p11.FOREIGN[i].format(stem)
                p.parent.mkdir(exist_ok=True)
                disk.write(p, f"not an output {i}".encode())
        for kind, a, b in s["plants"]:
            if tops:
                plant(root, tops[a % len(tops)], kind, b, base)
        before = place.tree()
        links = {t: (root / t).is_dir() for t in cli.tops(before)}
        there = [t for t in tops if t in links]
        clash = [t for t in there if links[t] != (t + "/" in base)]
        can_force = s["tool"] in ("ufo", "qu")
        force = bool(s["force"]) or not can_force
        plan = {"seed": s.get("seed", 0), "cut": s.get("cut", 0), "spare": ("list",)}
        st, out, fired, faults, events, tree, changed = sub(
            faulty, root, job, force, plan, s["faults"], total, src)
        for f, k in faults.items():
            rec.faults[f] += k
        for e in events:
            rec.ev(n, e)
        word = st.split()[0]
        rec.ev("step", n, s["tool"], s["opts"], force, there, word)
        rec.state(s["tool"], sorted(s["opts"]), force, len(there), bool(clash),
                  [x[0] for x in s["plants"]], word)
        what = f"step {n}: {s['tool']} {s['opts']} {'forced ' if force else ''}over {there} -> {st}"
        if changed:
            raise Violation("the source is changed", what)
        kept = before if not force else {
            k: v for k, v in before.items() if "/".join(k.split("/")[:2]) not in tops}
        now = {k: v for k, v in tree.items() if k in kept}
        # Files in folders of the output that are not there before count as changes, too
        if not force:
            for t in there:
                now |= cli.below(tree, t)
        if diff := cli.differ(kept, now):
            kind = "existing files are changed" + ("" if force else " without overwriting")
            raise Violation(kind, f"{what}: {diff}")
        if st == "ok":
            if not force and there:
                raise Violation("success although an output exists", what)
            if st0 != "ok":
                raise Violation("success of an impossible conversion", what)
            got = {a: b for t in tops for a, b in cli.below(tree, t).items()}
            if diff := cli.differ(base, got):
                raise Violation("output depends on what existed", f"{what}: {diff}")
            rec.probe("replaced" if there else "new output")
        elif st0 == "ok" and not fired:
            if not force and there:
                rec.probe("refused")
                if word == "crash":
                    raise Violation("no crash was planned", what)
            elif clash:
                rec.probe("output is of another kind")
            else:
                raise Violation("the conversion fails", f"{what}")
        extra = [t for t in cli.tops(tree) if t not in tops and t not in links]
        if [t for t in extra if not t.endswith(".zip")] and st0 == "ok" and st != "crash":
            raise Violation("additional output", f"{what}: {extra}")
        for t in extra:
            # Temporary files of an interrupted conversion
            if (root / t).is_file():
                os.unlink(root / t)
            rec.probe("temporary file left")
        rec.ev("tree", cli.digest(tree, root))
