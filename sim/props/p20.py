"""P20: class names and class definitions in exported feature code agree with the groups."""

import re
from pathlib import Path

from .. import fontgen, ufomodel
from ..core import Violation
from . import p15

ID = "P20"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 80000}
RULE = (
    "A random exportable font with classes, kerning class flags and feature code, and a random "
    "history of up to 16 edits of classes, flags, feature code and glyph names, decodings, "
    "encodings, saves, failed saves, interrupted calls, reloads and earlier exports with other "
    "options; the exported class definitions, groups and statements are compared with a "
    "reference model."
)
STATES = "distinct (last three kinds of steps, observation, masters, outline type) combinations"
REAL = ["vfbLib.vfb", "vfbLib.parsers", "vfbLib.compilers", "vfbLib.ufo", "ufoLib2"]
STUB = ["interruption (sim.sched)", "clock"]
ASSUMPTIONS = [
    "All entries are decoded before an export, as the converters do.",
    "A pair positioning statement is on one line.",
]
SIDES = ("cls0", "cls1", "cls2", "cls3", "x")
OPERANDS = ("A", "V", "@_cls0", "@_cls1", "@_cls2", "@_cls3", "@_x.alt", "@cls1", "@x", "[a b]",
            "[@_cls1]", "\\pos", "@public.kern1._cls0", "A_B")
VALUES = ("10", "-20", "0", "<0 0 -12 0>", "@_v")
OTHER = ("feature kern {", "  feature liga { # a", "# feature calt {", "feature\tss01{", "} kern;", "  sub a by b;", "# pos @_A @_B 10;", "", "  # ü @_A",
         "@x = [a b c];", "@_cls1 = [a b];", "lookup one useExtension {", "  sub @_cls0 by @_cls1;",
         "  sub pos by A;", "  pos A' 10 B;", "languagesystem DFLT dflt;", "  ignore pos A @_cls1;",
         "position @_cls0 @_cls1 10;", "script latn; # pos @_cls1 A 10;", "  pos A <0 0 10 0>;",
         "    ignore sub @_cls0 A' @_cls1;", "  repos @_cls0 @_cls1 10;")


def code(seed):
    r = fontgen.rng([1276, seed])
    lines = []
    for _ in range(r.choice((0, 1, 4, 12))):
        if r.random() < 0.4:
            line = r.choice(OTHER)
        else:
            line = r.choice(("", "  ", "\t"))
            if r.random() < 0.15:
                line += r.choice(("feature kern {", "} x; ", "lookup a { "))
            line += statement(r)
            while r.random() < 0.15:
                line += r.choice(("", " ", "  ")) + statement(r)
            line += r.choice(("", "", "", "}", " # pos @_cls0 @_cls1 10;", "#x", " # a # b", "#"))
        lines.append(line)
    # Empty lines at the end and repeated empty lines are not stored
    out = []
    for line in lines:
        if line or (out and out[-1]):
            out.append(line)
    while out and not out[-1]:
        out.pop()
    return [*out, ""]


def statement(r):
    gap = lambda: r.choice((" ", " ", " ", "  ", "\t"))  # noqa: E731
    text = r.choice(("", "", "enum" + gap())) + "pos" + gap()
    return (text + r.choice(OPERANDS) + gap() + r.choice(OPERANDS) + gap() + r.choice(VALUES)
            + r.choice(("", "", " ")) + ";")


def gen(r, tier):
    spec = fontgen.export_spec(r, max_glyphs=r.choice((2, 4, 6)), curves="t1")
    entries = spec["entries"]
    first = next(j for j, e in enumerate(entries) if e[0] == 2001)
    for i, n in ((1277, r.choice((0, 1, 3))), (2026, 1), (1276, 1)):
        if i != 1277 and any(e[0] == i for e in entries):
            continue
        for _ in range(n):
            entries.insert(r.randrange(first + 1), [i, fontgen.seed(r), 0, 0])
            first += 1
    spec["kern"] = r.random() < 0.5
    ops = [["code", 0, 0, 0, r.randrange(10**6), 0]] if r.random() < 0.9 else []
    for _ in range(r.choice((0, 1, 3, 6, 10, 16))):
        k = r.random()
        if k < 0.1:
            ops.append(["set", r.randrange(1000), fontgen.seed(r)])
        elif k < 0.5:
            ops.append([r.choice(("code", "line", "line", "flag", "flag", "class", "class", "rmc",
                                  "newc", "ren", "kern", "kern")),
                        r.randrange(1000), r.randrange(1000), r.randrange(1000),
                        r.randint(0, 10**6), r.randint(-300, 900)])
        elif k < 0.64:
            ops.append([r.choice(("dec", "com", "save", "save", "keys"))])
        elif k < 0.7:
            ops.append([r.choice(("dece", "come", "badsave", "badsave")), r.randrange(1000)])
        elif k < 0.76:
            ops.append(["int", r.choice(("dec", "com", "save", "export", "export")),
                        r.choice((r.random(), r.random() * 0.1)),
                        r.choice(("KeyboardInterrupt", "MemoryError"))])
        elif k < 0.82:
            ops.append([r.choice(("reload", "fresh"))])
        else:
            ops.append(["export", r.randrange(64)])
    return {"spec": spec, "ops": ops, "last": r.randrange(64)}


class Font(p15.Font):
    def where(self, eid):
        return [j for j, x in enumerate(self.ents) if x.eid == eid]

    def edit(self, op):
        kind, a, b, c, v, w = op
        if kind in ("code", "line"):
            f = self.where(1276)
            if not f:
                return False
            if kind == "code":
                self.put(f[0], code(v))
                return True
            new = code(v)[0]
            old = self.ents[f[0]].model
            if not new or len(old) < 2:
                return False
            for x in (old, self.data(f[0])):
                x[b % (len(x) - 1)] = new
        elif kind == "flag":
            f = self.where(2026)
            if not f:
                return False
            # Flags of a class that exists, or not, or none
            names = [self.ents[j].model.split(":")[0] for j in self.where(1277)]
            names = [n for n in names if n.startswith("_")] or ["_cls0"]
            n = names[b % len(names)]
            for x in (self.ents[f[0]].model, self.data(f[0])):
                if c % 5 == 0:
                    x.pop(n, None)
                else:
                    x[n] = ((1024, 2048, 3072, 0)[c % 4], w + 300)
        elif kind in ("class", "rmc", "newc"):
            f = self.where(1277)
            if not f:
                return False
            i = f[a % len(f)]
            m = self.ents[i]
            model, canon = fontgen.content(1277, v, m.item.ctx)
            if kind == "class":
                # The data is a string
                e = self.vfb.entries[i]
                e.decompile()
                e.data = m.model = model
            elif kind == "rmc":
                del self.vfb.entries[i]
                del self.ents[i]
            else:
                from vfbLib.vfb.entry import VfbEntry

                e = VfbEntry(self.vfb, eid=1277)
                e.data = canon
                self.vfb.entries.insert(i + 1, e)
                item = fontgen.Item(1277, canon, canon, model, False, None, m.item.ctx, m.item.gi)
                self.ents.insert(i + 1, type(m)(1277, canon, canon, model, item=item))
        else:
            return super().edit(op)
        return True

    def do(self, name):
        if name == "export":
            self.vfb.decompile()
            b, _ = self.builder(8)
            b.get_ufos_designspace(Path("out.ufo"), silent=True)
        else:
            super().do(name)

    def check_export(self, options, what):
        self.vfb.decompile()
        b, opts = self.builder(options)
        content = self.content()
        f = ufomodel.read(content)
        names = ufomodel.unique([g["data"]["name"] for g in f["glyphs"]])
        grp, _ = ufomodel.groups(f["classes"], f["flags"], names, opts["minimal"])
        moved = {}
        for name, members in grp.items():
            if name.startswith("."):
                continue
            if opts["add_kerning_groups"] if name.startswith("public.kern") else opts["move_groups"]:
                moved[name] = list(members)
        lines = next((m for eid, m in reversed(content) if eid == 1276), [])
        for i in self.where(1276):
            check_split(self.data(i), f"{what}: entry {i}")
        want = [expected(x) for x in lines]
        while want and not want[-1]:
            want.pop()
        for _ in range(2 if options & 32 else 1):
            ufos, _ = b.get_ufos_designspace(Path("out.ufo"), silent=True)
            for m, ufo in enumerate(ufos):
                text = ufo.features.text.split("\n")
                found = {}
                while text:
                    d = re.fullmatch(r"@(\S+) = \[(.*)\];", text[0])
                    if not d:
                        break
                    if d[1] in found:
                        raise Violation("class defined twice", f"{what}: master {m}: {d[1]}")
                    found[d[1]] = d[2].split()
                    text.pop(0)
                d = ufomodel.difference(moved, found)
                if d:
                    raise Violation("class definitions differ", f"{what}: master {m}: {d}")
                if list(found) != list(moved):
                    raise Violation("order of classes", f"{what}: master {m}: {list(found)}")
                while text and not text[0]:
                    text.pop(0)
                got = list(text)
                while got and not got[-1]:
                    got.pop()
                skip = 0
                while skip < len(want) and not want[skip]:
                    skip += 1
                d = ufomodel.difference(want[skip:], got)
                if d:
                    raise Violation("feature code differs", f"{what}: master {m}: line{d}")
                for name in grp:
                    if name.startswith("public.kern"):
                        continue  # P15
                    # A group is either in the feature code or in the groups
                    gone = name in moved and opts["move_groups"]
                    if (name in ufo.groups) == gone and (grp[name] or name in ufo.groups):
                        raise Violation("groups differ", f"{what}: master {m}: {name}, {list(ufo.groups)}")


def check_split(lines, what):
    """The split of the code into prefix and features keeps each line, in order."""
    from vfbLib.parsers.text import OpenTypeStringParser

    start = re.compile(r"[^#]*?feature\s*([a-z0-9]{4})\s*\{").match
    want = {"prefix": [], "features": []}
    for x in lines:
        m = start(x)
        if m:
            want["features"].append({"tag": m[1], "code": []})
        part = want["features"][-1]["code"] if want["features"] else want["prefix"]
        part.append(x)
    got = OpenTypeStringParser.build_fea_dict(lines)
    d = ufomodel.difference(want, got)
    if d:
        raise Violation("split of the feature code differs", f"{what}: {d}")


def expected(line):
    """A line of feature code with the references to kerning classes of both sides."""
    body, mark, comment = line.partition("#")
    out = ""
    for part in re.split("([;{])", body):
        tokens = re.findall(r"\s+|\S+", part)
        words = [i for i, t in enumerate(tokens) if t.strip()]
        if words and tokens[words[0]] == "enum":
            words.pop(0)
        if len(words) > 3 and tokens[words[0]] == "pos":
            for side in (1, 2):
                t = tokens[words[side]]
                if t.startswith("@_"):
                    tokens[words[side]] = f"@public.kern{side}." + t[1:]
        out += "".join(tokens)
    return out + mark + comment


def run(scn, rec):
    f = Font(scn, rec)
    p15.play(f, [*scn["ops"], ["export", scn["last"]]], rec,
             {"fresh": lambda op, what, last: f.reload(True)})
