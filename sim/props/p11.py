"""P11: a conversion that fails midway fails visibly and can simply be repeated."""

import os
import shutil
from pathlib import Path

from .. import cli, disk, fontgen
from ..core import HarnessError, Rec, Violation
from ..sched import alone

ID = "P11"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2200, "thorough": 45000}
RULE = (
    "One of the command line tools converts a random font, in folders that are empty, hold the "
    "outputs of another font or of the same one, and files that are not outputs. One to three "
    "times the conversion meets a fault (I/O error, no space, full disk, permission, too many "
    "files, error on close, crash with lost or torn data) at a random one of its file "
    "operations, counted in a dry run; then it is repeated without fault in a new process. The "
    "status, the source, the other files and the final outputs are compared with an "
    "undisturbed conversion."
)
STATES = "distinct (tool, options, operation, fault, status) tuples"
REAL = ["vfbLib and its command line functions", "ufoLib2, fontTools, ufonormalizer", "the file system below the seam"]
STUB = ["open, os.* and tempfile file operations: the simulated disk (sim.disk)", "clock"]
ASSUMPTIONS = [
    "A crash keeps what had been renamed; written data that was not synced may be lost or torn.",
    "Temporary files may remain after a failure, also the intermediate .zip file of fontTools.",
    "Listing a folder doesn't fail while an UFO is zipped (the standard library ignores that).",
]
FOREIGN = ("notes.txt", "{}.txt", "{}-9.ufo/metainfo.plist", "{}.vfb.json", "{}.tth.json", "x/y.glif",
           "{}.designspace", "{}.ttf", "{}-1.json", "{}.ufo.bak", "{}.qu.vfb", "font.vfc")


def gen(r, tier):
    job = cli.gen_job(r, ("ufo", "ufo", "ufo", "json", "tth", "qu", "diff"))
    if job["tool"] == "diff":
        job["path"] = 1
        job["spec2"] = cli.gen_spec(r, "diff", 2)
    runs = []
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        faults = []
        for _ in range(r.choice((1, 1, 1, 2))):
            k = r.random()
            at = r.random() if k < 0.7 else 1 - 0.1 * r.random() if k < 0.9 else 0.1 * r.random()
            faults.append({"at": at, "class": r.choice(("err", "err", "full", "crash")),
                           "sel": r.randrange(60)})
        runs.append({"faults": faults, "seed": r.randrange(1, 10**6), "cut": r.randrange(10**6),
                     "soft": r.choice((0, 0, 0, 0.3))})
    return {
        "job": job, "history": runs, "foreign": r.sample(range(len(FOREIGN)), r.choice((0, 2, 5))),
        "pre": r.choice(("no", "no", "other", "same")), "force": int(r.random() < 0.5),
        "other": cli.gen_spec(r, job["tool"], 2), "xdev": int(r.random() < 0.15),
    }


def converted(root, job, data=None, force=True):
    """An undisturbed conversion in this process."""
    place = cli.Place(root, job, data)
    rec = Rec()
    st, _, d = place.run(force, rec)
    return st, place.tree(), d.n


def faulty(root, job, force, plan, faults, total, data):
    place = cli.Place(root, job, data)
    rec = Rec(True)
    st, out, d = place.run(force, rec, plan, faults, total)
    return (st, out, [(op, k) for _, op, p, k in d.fired], dict(rec.faults), rec.events,
            place.tree(), place.source_changed())


def sub(f, *a):
    res = alone(f, *a)
    if res[0] != "ok":
        if res[1] == "BudgetExceeded":
            raise Violation("hang", f"a conversion doesn't end {res[2]}")
        raise HarnessError(f"{res[1]}: {res[2]}")
    return res[1]


def empty(root):
    for p in root.iterdir():
        if p.is_dir():
            shutil.rmtree(p)


def run(scn, rec):
    job = scn["job"]
    root = Path(rec.scratch) / "w"
    root.mkdir()
    data = fontgen.build(job["spec"]).source()
    st0, base, total = sub(converted, root, job, data)
    tops = cli.tops(base)
    empty(root)
    rec.ev("base", job["tool"], job["opts"], st0, len(base), cli.digest(base, root))
    if st0 != "ok":
        rec.probe("fonts that can't be converted")
    rec.probe(f"tool {job['tool']}")

    # What is there before
    force = bool(scn["force"])
    if scn["pre"] == "same":
        sub(converted, root, job, data)
        force = True
    elif scn["pre"] == "other":
        other = dict(job, spec=scn["other"])
        sub(converted, root, other)
        force = True
    place = cli.Place(root, job, data)
    foreign = {}
    stem = place.src.with_suffix("").name
    for i in scn["foreign"]:
        name = FOREIGN[i].format(stem)
        key = ("src/" if place.out_dir == place.src_dir else "out/") + name
        if "/".join(key.split("/")[:2]) in tops or (place.out_dir / name).exists():
            continue
        p = place.out_dir / name
        p.parent.mkdir(exist_ok=True)
        foreign[key] = f"not an output {i}".encode()
        disk.write(p, foreign[key])
    before = place.tree()
    stale = {k for k in cli.tops(before) if k not in tops}
    keep = {k: v for t in stale for k, v in cli.below(before, t).items()}

    done = False
    for k, h in enumerate(scn["history"]):
        plan = {"seed": h["seed"], "cut": h["cut"], "soft": h["soft"], "spare": ("list",)}
        if scn["xdev"]:
            plan["xdev"] = str(root / "tmp") + "/"
        st, out, fired, faults, events, tree, src = sub(
            faulty, root, job, force, plan, h["faults"], total, data)
        for f, n in faults.items():
            rec.faults[f] += n
        for e in events:
            rec.ev(k, e)
        rec.ev("status", k, st.split(" ")[0])
        for op, kind in fired:
            rec.state(job["tool"], job["opts"], op, kind, st.split()[0])
        rec.probe(f"status {st.split()[0]}" + ("" if fired else " without fault"))
        what = f"{job['tool']} {job['opts']} with {fired} -> {st}"
        if src:
            raise Violation("the source is changed", what)
        here(keep, tree, what)
        if st == "ok":
            if st0 != "ok":
                raise Violation("success of an impossible conversion", what)
            now = {a: b for t in tops for a, b in cli.below(tree, t).items()}
            if diff := cli.differ(base, now):
                raise Violation("success with incomplete output", f"{what}: {diff}")
            done = True
            if fired:
                rec.probe("a fault without effect")
        elif st0 == "ok" and not fired and not done and not any(faults) and k == 0 and (
            force or scn["pre"] == "no"
        ):
            raise Violation("failure without a fault", what)
        elif st == "crash":
            rec.probe("crashed")
    # Again, without fault, in a new process
    plan = {"xdev": str(root / "tmp") + "/"} if scn["xdev"] else {}
    st, out, fired, faults, events, tree, src = sub(faulty, root, job, True, plan, [], 0, data)
    what = f"{job['tool']} {job['opts']} after {[h['faults'] for h in scn['history']]}"
    if st.split()[0] != st0.split()[0]:
        raise Violation("the repeated conversion fails", f"{what}: {st} instead of {st0}")
    if src:
        raise Violation("the source is changed", what)
    here(keep, tree, what)
    if st == "ok":
        now = {a: b for t in tops for a, b in cli.below(tree, t).items()}
        if diff := cli.differ(base, now):
            raise Violation("the repeated conversion gives other output", f"{what}: {diff}")
        extra = [t for t in cli.tops(tree) if t not in tops and t not in stale
                 and not t.endswith(f"/{stem}.zip") and not (t.endswith(".zip"))]
        if extra:
            raise Violation("additional output", f"{what}: {extra}")
    rec.ev("end", st, cli.digest({k: v for k, v in tree.items() if k in base}, root))


def here(keep, tree, what):
    now = {k: v for k, v in tree.items() if k in keep}
    if diff := cli.differ(keep, now):
        raise Violation("a file that is no output is changed", f"{what}: {diff}")
