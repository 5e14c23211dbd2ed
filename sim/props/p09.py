"""P09: output depends on nothing but the input file and the options."""

import os
import re
from pathlib import Path

from .. import cli, disk, fontgen, zygote
from ..core import CLOCK, STEPS, HarnessError, Rec, Violation
from . import p11
from .p11 import converted, sub

ID = "P09"
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 40000}
RULE = (
    "A random font is converted by one of the tools with random options; then 1 to 3 times "
    "again, each in a process with another hash seed, with another and jumping clock, other "
    "order of directory listings, short and interrupted reads and writes, other location and "
    "spelling of the source, output and temporary folders, and after up to 3 other "
    "conversions in the same process, of which some fail. All output is compared with the "
    "first conversion."
)
STATES = "distinct (tool, options, varied conditions, tools used before) tuples"
REAL = [*p11.REAL, "hash randomisation of the interpreter"]
STUB = p11.STUB
ASSUMPTIONS = [
    "Order and time stamps of the members of a zipped UFO are not compared.",
    "The anchors in HTML reports, which difflib numbers per process, are not compared.",
    "Hash randomisation is represented by six hash seeds.",
]
PLACES = ("w", "other place", "Ä ö", "a/b/c", "x.ufo", "%41")

prepare = zygote.start
cleanup = zygote.stop


def gen(r, tier):
    job = cli.gen_job(r, ("ufo", "ufo", "ufo", "ufo", "json", "tth", "qu", "diff"), 5)
    if job["tool"] == "diff":
        job["path"] = int(r.random() < 0.5)
        job["spec2"] = cli.gen_spec(r, "diff", 2)
    variants = []
    for _ in range(r.choice((1, 1, 2, 3))):
        v = {"hash": r.randrange(6) if r.random() < 0.8 else 0, "history": []}
        if r.random() < 0.6:
            v["order"] = r.randrange(1, 10**6)
        if r.random() < 0.3:
            v["soft"] = r.choice((0.1, 0.4))
        if r.random() < 0.5:
            v["clock"] = r.randrange(10**6)
        if r.random() < 0.5:
            v["place"] = r.randrange(len(PLACES))
        if r.random() < 0.4:
            v["relative"] = r.choice((1, 2))
        if r.random() < 0.2:
            v["xdev"] = 1
        for _ in range(r.choice((0, 0, 1, 2, 3))):
            same = r.random() < 0.25
            h = {"job": dict(job) if same else cli.gen_job(
                r, ("ufo", "ufo", job["tool"] if job["tool"] != "diff" else "json", "json", "tth",
                    "qu"), 3), "faults": []}
            if r.random() < 0.3:
                h["faults"] = [{"at": r.randrange(150), "class": r.choice(("err", "full")),
                                "sel": r.randrange(60)}]
            v["history"].append(h)
        variants.append(v)
    return {"job": job, "variants": variants}


def variant(scratch, job, data, v):
    """Executed in a process of its own: conversions before, and the conversion."""
    scratch = Path(scratch)
    rec = Rec(True)
    before = []
    for i, h in enumerate(v["history"]):
        root = scratch / f"h{i}"
        place = cli.Place(root, h["job"])
        st, _, d = place.run(True, rec, {"spare": ("list",)}, h["faults"], 1)
        if st == "crash":
            raise HarnessError("crash")
        before.append(st.split()[0])
    root = scratch / PLACES[v.get("place", 0)]
    root.mkdir(parents=True, exist_ok=True)
    place = cli.Place(root, job, data)
    if v.get("relative") == 1:
        os.chdir(root)
    elif v.get("relative"):
        os.chdir(place.src_dir)
    if "clock" in v:
        cli.clock(v["clock"])
    plan = {"seed": v.get("order", 0), "soft": v.get("soft", 0)}
    if v.get("xdev"):
        plan["xdev"] = str(place.tmp) + "/"
    st, out, d = place.run(True, rec, plan, relative=bool(v.get("relative")))
    CLOCK.jumps = ()
    return st, place.tree(), out, dict(rec.faults), before, d.n, place.source_changed()


def run(scn, rec):
    job = scn["job"]
    scratch = Path(rec.scratch)
    root = scratch / "w"
    root.mkdir()
    data = fontgen.build(job["spec"]).source()
    st0, base, out0 = sub(baseline, root, job, data)
    p11.empty(root)
    rec.ev("base", job["tool"], job["opts"], st0, len(base), cli.digest(base, root))
    rec.probe(f"tool {job['tool']} {st0.split()[0]}")
    for n, v in enumerate(scn["variants"]):
        if job["tool"] == "diff":
            # The report shows the paths
            v = {k: x for k, x in v.items() if k not in ("place", "relative")}
        place = scratch / f"v{n}"
        if job["tool"] == "diff":
            place = scratch
        place.mkdir(exist_ok=True)
        out, steps, time = zygote.call(
            v["hash"], "sim.props.p09", "variant", str(place), job, data, v)
        if out[0] != "ok":
            if out[1] == "BudgetExceeded":
                raise Violation("hang", f"{v}: a conversion doesn't end {out[2]}")
            raise HarnessError(str(out))
        if 0 < steps < 1 << 40:
            STEPS.left -= steps
        CLOCK.now += abs(time) if "clock" not in v else 1
        st, tree, text, faults, before, n_ops, changed = out[1]
        if place == scratch:
            p11.empty(root)
        for f, k in faults.items():
            rec.faults[f] += k
        cond = sorted(k for k in v if k != "history" and v[k])
        rec.state(job["tool"], job["opts"], cond, [(h["job"]["tool"], b) for h, b in zip(
            v["history"], before)])
        for c in cond:
            rec.probe(f"varied {c}")
        for b in before:
            rec.probe(f"conversion before {b}")
        rec.ev("variant", n, st.split()[0], n_ops, cli.digest(tree, root))
        what = f"{job['tool']} {job['opts']} with {cond} after {before}"
        if changed:
            raise Violation("the source is changed", what)
        if st.split()[0] != st0.split()[0]:
            raise Violation("another status", f"{what}: {st} instead of {st0}")
        if st0 != "ok":
            continue
        if diff := cli.differ(anchors(base), anchors(tree)):
            raise Violation("another output", f"{what}: {diff}")
        if job["tool"] == "diff" and text != out0:
            raise Violation("another report", what)


def anchors(tree):
    """difflib counts the reports of a process in the names of their anchors"""
    return {k: re.sub(rb"difflib_chg_to\d+|\b(?:from|to)\d+_", b"", v) if k.endswith("/diff.html") and v else v
            for k, v in tree.items()}


def baseline(root, job, data):
    place = cli.Place(root, job, data)
    st, out, _ = place.run(True, Rec())
    return st, place.tree(), out
