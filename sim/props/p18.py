"""P18: comparing two files reports a difference exactly if their content differs."""

import html
import json
import re
from collections import Counter
from pathlib import Path

from .. import cli, disk, fontgen
from ..core import Violation
from ..names import NAMES
from ..wire import same
from . import p11
from .p05 import damage
from .p16 import DAMAGE, decodable, to_json

ID = "P18"
LEVEL = "fault_enumeration"
RUNS = {"quick": 10000, "thorough": 110000}
RULE = (
    "A random font and a copy with 0 to 4 random edits (other content, entries removed, "
    "repeated, moved, another file version), of which some change only the encoding of the "
    "content, are compared in both directions and with themselves, as text and HTML, with "
    "short and interrupted reads, read faults on either file, and damaged entries. The report "
    "must be empty exactly if the contents in the reference model are equal; otherwise, it must "
    "account for exactly the lines in which the two JSON representations of the model differ."
)
STATES = "distinct (edits, edited entry types, faults, output, result) tuples"
REAL = ["vfbLib and its command line functions", "difflib", "orjson"]
STUB = p11.STUB
ASSUMPTIONS = [
    "A file that ends within an entry is treated as if it ended before that entry (P04).",
]
EDITS = ("content", "content", "content", "noise", "noise", "long", "drop", "double", "swap",
         "minor", "trailer")


def gen(r, tier):
    page = int(r.random() < 0.12)
    spec = fontgen.wild_spec(r, max_font=3 if page else 6, max_glyphs=1 if page else 2) if (
        page or r.random() < 0.75) else fontgen.export_spec(r, max_glyphs=1)
    edits = [[r.choice(EDITS), r.randrange(1000), fontgen.seed(r)]
             for _ in range(r.choice((0, 1, 1, 1, 2, 4)))]
    if r.random() < 0.35:
        edits = [e for e in edits if e[0] in ("noise", "long", "trailer")]
    scn = {"spec": spec, "edits": edits, "soft": r.choice((0, 0.1, 0.5)),
           "seed": r.randrange(1, 10**6), "faults": [], "damage": [], "path": 1,
           "html": page, "name": r.choice(cli.NAMES),
           "pre": r.choice((0, 0, 1)), "bare": int(r.random() < 0.02)}
    if r.random() < 0.2:
        scn["faults"] = [{"at": r.random(), "class": r.choice(("err", "crash")),
                          "sel": r.randrange(60)}]
    if r.random() < 0.15:
        scn["damage"] = [[r.randrange(1000), r.choice(DAMAGE), r.random(), r.randrange(2**30),
                          r.randrange(2)]]
    return scn


def edited(spec, edits, rec):
    spec = json.loads(json.dumps(spec))
    es = spec["entries"]
    for kind, a, s in edits:
        free = [i for i, e in enumerate(es) if e[0] not in (2, 1503, 10)]
        rec.probe(f"edit {kind}")
        if kind == "minor":
            spec["minor"] = s % 256
            continue
        if kind == "trailer":
            if any(e[0] == 2 for e in es):
                spec["trailer"] = f"{s % 65536:04x}"
            continue
        if not free:
            continue
        i = free[a % len(free)]
        e = es[i]
        if kind == "content":
            e[1] = s
            del e[4:]
        elif kind in ("noise", "long"):
            e[2] = 1 - e[2]
        elif kind == "drop" and e[0] not in (1269, 2001):
            del es[i]
        elif kind == "double" and e[0] not in fontgen.UNIQUE and e[0] != 2001:
            es.insert(i, list(e))
        elif kind == "swap" and len(free) > 1:
            j = free[(a // 7) % len(free)]
            if 2001 not in (es[i][0], es[j][0]):
                es[i], es[j] = es[j], es[i]
    return spec


def document(font):
    return {
        "entries": [{"key": NAMES.get(it.eid, str(it.eid)), "decompiled": to_json(it.model)}
                    for it in font.items],
    }


def value(s):
    """A line of JSON without the differences between formatters."""
    s = s.strip().rstrip(",")
    if s in ("[]", "{}", "[", "{", "]", "}"):
        return s
    for t in (s, "{" + s + "}", s + "1]", ):
        try:
            return repr(json.loads(t))
        except ValueError:
            pass
    return s


def lines(doc):
    return Counter(value(x) for x in json.dumps(doc, indent=2, sort_keys=True, ensure_ascii=False).splitlines())


def reported(text):
    minus, plus = Counter(), Counter()
    for i, x in enumerate(text.splitlines()):
        if i < 4 and (x.startswith("--- ") or x.startswith("+++ ")) or x == "":
            continue
        if x[0] == "-":
            minus[value(x[1:])] += 1
        elif x[0] == "+":
            plus[value(x[1:])] += 1
    return minus, plus


def run(scn, rec):
    root = Path(rec.scratch) / "w"
    root.mkdir()
    fonts = [fontgen.build(scn["spec"]), fontgen.build(edited(scn["spec"], scn["edits"], rec))]
    odd = None
    if scn.get("bare"):
        fonts[1].items, fonts[1].trailer = [], b""
        rec.probe("a file without entries")
    for f in scn["damage"]:
        font = fonts[f[4]]
        free = [i for i, it in enumerate(font.items) if it.eid not in (1, 10, 1503, 1269, 2, 1410)]
        if free:
            i = free[f[0] % len(free)]
            b = damage(font.items[i].src, f)
            if b != font.items[i].src:
                font.items[i].src = b
                font.items[i].long = False
                odd = (f[4], i)
                rec.fault(f"damaged entry ({f[1]})")
    data = [f.source() for f in fonts]
    ok = odd is None or decodable(data[odd[0]], [odd[1]])[0]
    docs = [document(f) for f in fonts]
    equal = same(docs[0], docs[1]) and fonts[0].header == fonts[1].header
    if not equal and odd is None:
        rec.probe("different")
    kinds = sorted({(k, fonts[0].items[a % len(fonts[0].items)].eid) for k, a, _ in scn["edits"]})

    job = {"tool": "diff", "opts": [], "path": scn["html"], "name": scn["name"], "spec2": None}
    sides = [(0, 1), (1, 0), (0, 0)] if not scn["html"] else [(0, 1)]
    for a, b in sides:
        disk_a = {"data": data[a], "other": data[b]}
        place = PairPlace(root, job, disk_a["data"], disk_a["other"])
        report = place.out_dir / "diff.html"
        if scn["pre"] and scn["html"]:
            disk.write(report, b"an older report")
        before = place.tree()
        plan = {"seed": scn["seed"], "soft": scn["soft"]}
        faults = []
        if scn["faults"]:
            # Both files are opened, read and closed; what happens when the report can't be
            # written is P11
            faults = [{**f, "at": int(f["at"] * reads(place, before))} for f in scn["faults"]]
            plan["soft"] = 0
        st, out, d = place.run(False, rec, plan, faults, 1)
        what = f"{(a, b)}: {scn['edits']} damaged {odd} {d.fired}"
        tree = place.tree()
        rec.ev("compare", a, b, equal, st.split()[0], len(out))
        rec.state(kinds, [k for _, _, _, k in d.fired], scn["html"], a, b, st.split()[0], not out)
        if place.source_changed() or disk.read(place.other) != data[b]:
            raise Violation("a compared file is changed", what)
        involved = odd is not None and odd[0] in (a, b)
        if d.fired or (involved and not ok):
            if st == "ok":
                raise Violation("success", f"{what}: the files can't be read and decoded")
            if diff := cli.differ(before, tree):
                raise Violation("existing files are changed", f"{what}: {diff}")
            if any(x[:1] in "+-" for x in out.splitlines() if x):
                raise Violation("partial report", what)
            rec.probe("failed")
            continue
        if st != "ok":
            raise Violation("failure", f"{what}: {st}")
        if involved and a != b:
            rec.probe("damaged entry could be decoded")
            continue
        no_diff = equal or a == b
        rec.probe("no difference" if no_diff else "difference")
        if scn["html"]:
            page(tree, report, docs, fonts, no_diff, what)
            if out:
                raise Violation("report on standard output", f"{what}: {out[:200]}")
            continue
        if no_diff:
            if out:
                raise Violation("difference reported", f"{what}: {out[:500]}")
            continue
        if not out:
            raise Violation("no difference reported", what)
        minus, plus = reported(out)
        la, lb = lines(docs[a]), lines(docs[b])
        gone, new = la - lb, lb - la
        if fonts[0].header != fonts[1].header:
            # Lines of the header
            k = value(f'"version_minor": {fonts[a].header["version_minor"]}')
            n = value(f'"version_minor": {fonts[b].header["version_minor"]}')
            gone[k] += 1
            new[n] += 1
            gone, new = gone - new, new - gone
        if minus - plus != gone or plus - minus != new:
            raise Violation(
                "values in the report", f"{what}: removed {minus - plus} instead of {gone}, "
                f"added {plus - minus} instead of {new}")


def page(tree, report, docs, fonts, no_diff, what):
    data = tree.get(f"out/{report.name}")
    if data is None:
        raise Violation("no report", what)
    text = html.unescape(re.sub(r"<[^>]*>", "", data.decode())).replace("\xa0", " ")
    if no_diff != ("No Differences Found" in text):
        raise Violation("HTML report", f"{what}: equal {no_diff}")
    if no_diff:
        return
    la, lb = [Counter(x.strip() for x in json.dumps(d, indent=2, sort_keys=True, ensure_ascii=False)
                      .splitlines()) for d in docs]
    for x in [*(la - lb), *(lb - la)]:
        x = x.rstrip(",")
        if any(c in x for c in "\\e\x7f") or "." in x:
            continue  # numbers and characters that are written in several ways
        if x not in text:
            raise Violation("values in the HTML report", f"{what}: {x}")


def reads(place, before):
    """Number of file operations that read."""
    from ..core import Rec

    _, _, d = place.run(False, Rec(), {})
    n = next((i for i, (op, _) in enumerate(d.log) if op == "open-w"), len(d.log))
    for k, v in place.tree().items():
        if v is not None and before.get(k) != v:
            p = place.root / k
            if k in before:
                disk.write(p, before[k])
            else:
                p.unlink()
    return max(n, 1)


class PairPlace(cli.Place):
    def __init__(self, root, job, data, other):
        self.other_data = other
        super().__init__(root, {**job, "tool": "none"}, data)
        self.job = job
        self.other = self.src_dir / "other.vfb"
        disk.write(self.other, other)
