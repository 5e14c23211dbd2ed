"""P23: the files that the command line tools write hold the complete conversion."""

import contextlib
import io
import json
import logging
import os
import re
from pathlib import Path

from .. import cli, disk, fontgen
from ..core import Violation
from . import p11
from .p11 import sub

ID = "P23"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1800, "thorough": 40000}
RULE = (
    "A history of 1 to 4 command line jobs (vfb2ufo mostly, vfb2tth, vfb2json, vfbcu2qu) with "
    "random fonts and options in one process and one pair of folders, over the outputs of "
    "earlier jobs, with short and interrupted reads and writes, and errors or a full disk in some "
    "of the jobs. After each successful job every output is read back with a reader that isn't "
    "the tool's and compared with what the library gives in memory for the same font and options "
    "in a process of its own."
)
STATES = "distinct (tool, options, masters, forced, earlier statuses, soft faults) tuples"
REAL = p11.REAL
STUB = p11.STUB
ASSUMPTIONS = [
    "Numbers in a normalised UFO are rounded to 10 decimals, colours are written with 4 decimals.",
    "An empty note isn't stored in a file.",
]
TOOLS = ("ufo", "ufo", "ufo", "ufo", "tth", "json", "qu")


def gen(r, tier):
    tools = [r.choice(TOOLS)]
    if r.random() < 0.35:
        tools.append(r.choice(TOOLS))
    fonts = [{"tool": t, "spec": cli.gen_spec(r, t, 4)} for t in tools]
    if r.random() < 0.3:
        t = r.choice(tools)
        fonts.append({"tool": t, "spec": cli.gen_spec(r, t, 3)})
    steps = []
    for _ in range(r.choice((1, 1, 2, 3, 4))):
        k = r.randrange(len(fonts))
        t = fonts[k]["tool"]
        s = {"font": k, "opts": cli.gen_options(r, t), "force": int(r.random() < 0.8),
             "soft": r.choice((0, 0.2, 0.5)), "seed": r.randrange(1, 10**6), "faults": []}
        if r.random() < 0.15:
            s["faults"] = [{"at": r.random(), "class": r.choice(("err", "full")),
                            "sel": r.randrange(60)}]
        steps.append(s)
    return {"fonts": fonts, "history": steps, "name": r.choice(cli.NAMES),
            "path": int(r.random() < 0.6)}


# ------------------------------------------------------------- what is expected


def expected(root, tool, opts, data):
    """The content of all the outputs, from the library, or the error."""
    logging.disable(logging.CRITICAL)
    root = Path(root)
    src = root / "font.vfb"
    disk.write(src, data)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return EXPECT[tool](src, opts)
    except Exception as x:
        return f"raised {type(x).__name__}"
    finally:
        src.unlink()


def savable(root, opts, data):
    """Can the library's export be saved at all (values that UFO doesn't allow)?"""
    logging.disable(logging.CRITICAL)
    src = Path(root) / "font.vfb"
    disk.write(src, data)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for k, u in enumerate(export(src, opts, ".ufo")[0]):
                if "-j" in opts:
                    u.json_dumps()
                else:
                    u.save(src.with_suffix(f".{k}.ufo"))
    except Exception:
        return False
    finally:
        p11.empty(Path(root))
        src.unlink()
    return True


def export(src, opts, suffix):
    from vfbLib.enum import F
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.vfb.vfb import Vfb

    minimal = "-m" in opts
    vfb = Vfb(src, minimal=minimal, drop_keys={F.Encoding, F.EncodingDefault},
              unicode_strings="-u" in opts)
    vfb.decompile()
    builder = VfbToUfoBuilder(
        vfb, minimal=minimal, base64="-64" in opts, pshints="-nops" not in opts,
        add_kerning_groups="-k" in opts, move_groups="-g" not in opts)
    return builder.get_ufos_designspace(src.with_suffix(suffix), True)


def expect_ufo(src, opts):
    suffix = ".json" if "-j" in opts else ".ufoz" if "-z" in opts else ".ufo"
    ufos, ds = export(src, opts, suffix)
    out = {f"{f'-{k}' if k else ''}{suffix}": content(u) for k, u in enumerate(ufos)}
    if ds:
        out[".designspace"] = space(ds, [
            f"{f'-{k}' if k else ''}{suffix}" for k in range(len(ufos))])
    return out


def expect_tth(src, opts):
    from vfbLib.tth import extract_truetype_hinting
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(src, minimal=True, unicode_strings=True)
    data = extract_truetype_hinting(vfb)
    fmt = opts[1] if opts else "json"
    if vfb.any_errors:
        return "exit"
    return {f".tth.{fmt}": text(data)}


def expect_json(src, opts):
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(src, only_header="--header" in opts, minimal="-m" in opts,
              unicode_strings="-u" in opts)
    if "-r" in opts:
        vfb.decompile()
        vfb.compile()
    if "-d" not in opts:
        vfb.decompile()
    return {".vfb.json": text(vfb.as_dict())}


def expect_qu(src, opts):
    from fontTools.cu2qu.ufo import font_to_quadratic, fonts_to_quadratic

    from vfbLib.enum import G
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(src, drop_keys={G.Links})
    vfb.decompile()
    kw = {"max_err_em": float(opts[1]) if opts else None, "reverse_direction": True,
          "remember_curve_type": False, "all_quadratic": True}
    if vfb.num_masters == 1:
        changed = font_to_quadratic(vfb, **kw)
    else:
        changed = fonts_to_quadratic(vfb.get_masters(), **kw)
    if not changed:
        return {}
    buf = io.BytesIO()
    buf.write(b"")
    vfb.write(src.with_suffix(".qu"))
    try:
        return {".vfb": entries(src.with_suffix(".qu"))}
    finally:
        src.with_suffix(".qu").unlink()


EXPECT = {"ufo": expect_ufo, "tth": expect_tth, "json": expect_json, "qu": expect_qu}


# ------------------------------------------------------------- what is there


def text(x):
    """As it is after JSON, TOML or YAML: all keys are strings."""
    if isinstance(x, dict):
        return {str(k): text(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return x.hex(" ")
    return x


def space(ds, names):
    d = ds.asdict()
    out = {k: d[k] for k in ("axes", "axisMappings", "locationLabels", "rules", "sources",
                             "variableFonts", "instances", "lib")}
    for s, name in zip(out["sources"], names):
        s["file"] = name
    # White space in attributes becomes spaces
    return plain(json.loads(re.sub(r"\\[trn]", " ", json.dumps(out))))


def content(ufo):
    from ufoLib2.converters import unstructure

    return plain(unstructure(ufo))


def plain(x, key=None):
    if isinstance(x, dict):
        # White space at the start and end of the lines of a GLIF note isn't kept
        return {k: " ".join(v.split()) if k == "note" and isinstance(v, str) else plain(v, k)
                for k, v in x.items() if not (k == "note" and v in ("", None))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float):
        x = round(x, 9)
        return int(x) if x == int(x) else x
    if isinstance(x, str) and key == "name":
        # An XML attribute
        return re.sub(r"[\t\r\n]", " ", x)
    if isinstance(x, str) and key in ("color", "public.markColor", "markColor"):
        with contextlib.suppress(ValueError):
            return [round(float(v), 4) + 0.0 for v in x.split(",")]
    return x


def entries(path):
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(path)
    vfb.decompile()
    return text(vfb.as_dict())


def read_back(path, kind):
    """Content of a written file."""
    if kind == ".designspace":
        from fontTools.designspaceLib import DesignSpaceDocument

        d = DesignSpaceDocument.fromfile(path)
        stem = path.with_suffix("").name
        names = [os.path.basename(s.path).removeprefix(stem) for s in d.sources]
        missing = [s.path for s in d.sources if not os.path.exists(s.path)]
        if missing:
            return f"sources missing {missing}"
        return space(d, names)
    if kind.endswith((".ufo", ".ufoz")):
        from ufoLib2 import Font

        with Font.open(path, lazy=False) as f:
            return content(f)
    data = disk.read(path)
    if kind.endswith(".toml"):
        import tomllib

        return text(tomllib.loads(data.decode()))
    if kind.endswith(".yaml"):
        import yaml

        return text(yaml.safe_load(data))
    if kind == ".vfb.json" or ".tth." in kind:
        return json.loads(data)
    if kind.endswith(".json"):
        from ufoLib2 import Font

        return content(Font.json_loads(data))
    if kind == ".vfb":
        return entries(path)
    raise AssertionError(kind)


def history(root, name, path, jobs, force, plans, totals, want):
    """All jobs in one process. Returns the results of the steps."""
    from ..core import Rec

    out = []
    for n, (job, data) in enumerate(jobs):
        place = cli.Place(root, job, data)
        before = place.tree()
        rec = Rec(True)
        st, text_, d = place.run(bool(force[n]), rec, plans[n][0], plans[n][1], totals[n])
        logging.disable(logging.CRITICAL)
        after = place.tree()
        changed = sorted({k for k in {*before, *after} if before.get(k, 0) != after.get(k, 0)})
        res = {"status": st, "silent": not text_, "fired": [(o, k) for _, o, p, k in d.fired],
               "faults": dict(rec.faults), "before": cli.tops(before), "tops": cli.tops(after),
               "changed": cli.tops(dict.fromkeys(changed)), "source": place.source_changed(),
               "found": {}}
        if st == "ok" and isinstance(want[n], dict):
            for kind in want[n]:
                p = output(place, job, kind)
                if not p.exists():
                    continue
                try:
                    found = read_back(p, kind)
                except Exception as x:
                    found = f"raised {type(x).__name__} {x}"
                res["found"][kind] = found
        # The bytes of an incomplete archive contain the time
        res["digest"] = cli.digest({k: repr(v) for k, v in res["found"].items()})
        out.append(res)
    return out


def output(place, job, kind):
    name = job["name"]
    if kind == ".vfb" and place.out_dir == place.src_dir:
        kind = ".qu.vfb"
    stem, dot, suffix = kind.partition(".")
    base = f"{name}.vfb"
    if kind == ".vfb":
        return place.out_dir / base
    return place.out_dir / f"{name}{stem}{dot}{suffix}"


def run(scn, rec):
    root = Path(rec.scratch) / "w"
    clean = Path(rec.scratch) / "c"
    root.mkdir()
    clean.mkdir()
    data = [fontgen.build(f["spec"]).source() for f in scn["fonts"]]
    jobs, want, plans, totals = [], [], [], []
    seen = {}
    for s in scn["history"]:
        k = s["font"] % len(data)
        tool = scn["fonts"][k]["tool"]
        job = {"tool": tool, "opts": s["opts"], "spec": None, "name": scn["name"],
               "path": scn["path"]}
        key = (k, tuple(s["opts"]))
        if key not in seen:
            total = 0
            if s["faults"]:
                total = sub(p11.converted, clean, job, data[k], True)[2]
                p11.empty(clean)
            seen[key] = sub(expected, clean, tool, s["opts"], data[k]), total
        jobs.append((job, data[k]))
        want.append(seen[key][0])
        totals.append(seen[key][1])
        plans.append(({"seed": s["seed"], "soft": s["soft"], "spare": ("list",)}, s["faults"]))
    force = [s["force"] for s in scn["history"]]
    # The other jobs' source is in the way of a job only if it has the same name
    steps = sub(history, root, scn["name"], scn["path"], jobs, force, plans, totals, want)
    past = []
    for n, (res, w) in enumerate(zip(steps, want)):
        job = jobs[n][0]
        for f, k in res["faults"].items():
            rec.faults[f] += k
        st = res["status"]
        word = st.split()[0]
        rec.ev(n, job["tool"], job["opts"], force[n], word, res["fired"], res["digest"])
        rec.state(job["tool"], sorted(job["opts"]), len(w) if isinstance(w, dict) else w,
                  force[n], past[-2:], bool(plans[n][0]["soft"]), bool(res["fired"]))
        rec.probe(f"{job['tool']} {word}" + (" with fault" if res["fired"] else ""))
        what = (f"step {n}: {job['tool']} {job['opts']}{' forced' if force[n] else ''} after {past}, "
                f"faults {res['fired']} -> {st}")
        past.append(word)
        if res["source"]:
            raise Violation("the source is changed", what)
        if isinstance(w, str):
            if word == "ok":
                raise Violation("success where the library reports an error", f"{what}: {w}")
            continue
        if job["tool"] == "qu" and st != "ok" and not res["fired"] and not force[n]:
            continue
        folder = "out" if scn["path"] else "src"
        place = cli.Place(root, job, jobs[n][1])
        names = {f"{folder}/{output(place, job, k).name}": k for k in w}
        there = [t for t in names if t in res["before"]]
        if st != "ok":
            if not res["fired"] and (force[n] or not there) and not blocked(names, steps[:n]) \
                    and not (job["tool"] == "ufo"
                             and not sub(savable, clean, job["opts"], jobs[n][1])):
                raise Violation("failure without a reason", f"{what}, over {there}")
            continue
        # fontTools uses <name>.zip while it writes <name>.ufoz
        strange = [t for t in res["changed"] if t not in names
                   and t.removesuffix(".zip") + ".ufoz" not in names]
        if strange and not res["fired"]:
            raise Violation("another file is written", f"{what}: {strange}")
        if "-s" in job["opts"] and not res["silent"]:
            raise Violation("silent mode isn't silent", what)
        for name, kind in names.items():
            if kind not in res["found"]:
                raise Violation("an output is missing", f"{what}: {name}")
            found = res["found"][kind]
            if isinstance(found, str):
                raise Violation("an output can't be read", f"{what}: {name}: {found}")
            d = differ(w[kind], found)
            if d:
                raise Violation("an output isn't the conversion", f"{what}: {name}: {d}")
        rec.probe(f"outputs {len(names)}")
        for kind in names.values():
            rec.probe("output " + re.sub(r"^-\d+", "-n", kind))


def blocked(names, steps):
    """An earlier job has failed and may have left something incomplete."""
    return any(s["fired"] for s in steps)


def differ(a, b, path=""):
    """First difference of two contents, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted({*a, *b}, key=repr):
            if k not in a:
                return f"{path}/{k} is additional: {b[k]!r:.150}"
            if k not in b:
                return f"{path}/{k} is missing: {a[k]!r:.150}"
            if d := differ(a[k], b[k], f"{path}/{k}"):
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(b)} instead of {len(a)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := differ(x, y, f"{path}/{i}"):
                return d
        return None
    num = all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in (a, b))
    if num and abs(a - b) <= 1e-9 * max(1, abs(a)):
        return None
    if a != b or not num and type(a) is not type(b):
        return f"{path}: {b!r:.150} instead of {a!r:.150}"
    return None
