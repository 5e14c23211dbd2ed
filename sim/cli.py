"""The command line tools: jobs (a tool, its options, a font), running them, their output."""

import io
import os
import sys
import tempfile
import zipfile
from hashlib import sha256
from pathlib import Path

from . import disk, fontgen
from .core import CLOCK

TOOLS = {
    "json": ("vfbLib.cmdline", "vfb2json"),
    "ufo": ("vfbLib.cmdline", "vfb2ufo"),
    "tth": ("vfbLib.tth", "vfb2tth"),
    "qu": ("vfbLib.cu2qu", "vfbcu2qu"),
    "diff": ("vfbLib.diff", "diffvfb"),
}
NAMES = ("font", "My Font", "a.b", "Grün", "x-1")


def gen_options(r, tool):
    if tool == "json":
        return [f for f in ("-d", "-m", "-r") if r.random() < 0.25] + (
            ["--header"] if r.random() < 0.06 else []) + (["-u"] if r.random() < 0.05 else [])
    if tool == "ufo":
        out = [f for f, p in (("-j", 0.25), ("-z", 0.3), ("-g", 0.3), ("-k", 0.3), ("-64", 0.2),
                              ("-s", 0.5), ("-n", 0.3), ("-nops", 0.2), ("-m", 0.2), ("-ttx", 0.05),
                              ("-u", 0.05), ("-v", 0.03))
               if r.random() < p]
        return out
    if tool == "tth":
        return ["-f", r.choice(("json", "toml", "yaml"))] if r.random() < 0.8 else []
    if tool == "qu":
        return ["-m", r.choice(("0.001", "0.0005", "0.01", "0.1"))] if r.random() < 0.5 else []
    return []


def gen_spec(r, tool, max_glyphs=4):
    """A font that the tool can convert."""
    if tool in ("json", "diff"):
        if r.random() < 0.5:
            return fontgen.wild_spec(r, max_font=6, max_glyphs=3)
        return fontgen.export_spec(r, max_glyphs=max_glyphs)
    if tool == "tth":
        return fontgen.export_spec(r, max_glyphs=max_glyphs, curves="tt")
    if tool == "qu":
        return fontgen.export_spec(r, max_glyphs=max_glyphs, curves="t1")
    return fontgen.export_spec(r, max_glyphs=max_glyphs)


def gen_job(r, tools=("ufo", "ufo", "ufo", "json", "tth", "qu"), max_glyphs=4):
    tool = r.choice(tools)
    return {"tool": tool, "opts": gen_options(r, tool), "spec": gen_spec(r, tool, max_glyphs),
            "name": r.choice(NAMES), "path": int(r.random() < 0.6)}


class Place:
    """The folders of one conversion: the source, and where the output goes."""

    def __init__(self, root, job, data=None):
        self.root = Path(root)
        self.job = job
        self.src_dir = self.root / "src"
        self.out_dir = self.root / "out" if job["path"] else self.src_dir
        self.tmp = self.root / "tmp"
        for d in (self.root, self.src_dir, self.out_dir, self.tmp):
            d.mkdir(exist_ok=True)
        self.src = self.src_dir / f"{job['name']}.vfb"
        self.data = data if data is not None else fontgen.build(job["spec"]).source()
        disk.write(self.src, self.data)
        self.other = None
        if job["tool"] == "diff":
            self.other = self.src_dir / "other.vfb"
            disk.write(self.other, fontgen.build(job["spec2"]).source())

    def argv(self, force=False, relative=False):
        def p(x):
            return os.path.relpath(x) if relative else str(x)

        job = self.job
        out = list(job["opts"])
        if job["tool"] == "diff":
            if job["path"]:
                out += ["--html", p(self.out_dir / "diff.html")]
            return [*out, p(self.src), p(self.other)]
        if job["path"]:
            out += ["-p", p(self.out_dir)]
        if force and job["tool"] in ("ufo", "qu"):
            out.append("-fo")
        return [*out, p(self.src)]

    def run(self, force=False, rec=None, plan=None, faults=None, total=0, relative=False):
        """Returns (status, stdout, the disk)."""
        tempfile.tempdir = str(self.tmp)
        os.environ["TMPDIR"] = str(self.tmp)
        d = disk.Disk(rec, plan) if rec is not None else None
        if faults:
            d.plan(faults, total)
        argv = self.argv(force, relative)
        if d is None:
            return (*call(self.job["tool"], argv), None)
        with d:
            res = call(self.job["tool"], argv)
        return (*res, d)

    def tree(self):
        """Everything in the folders except temporary files, without the source."""
        out = {}
        for name, d in (("src", self.src_dir), ("out", self.out_dir)):
            if name == "out" and d == self.src_dir:
                continue
            for k, v in disk.tree(d).items():
                if name == "src" and k in (self.src.name, "other.vfb"):
                    continue
                out[f"{name}/{k}"] = v
        return plain(out)

    def source_changed(self):
        return disk.read(self.src) != self.data


def call(tool, argv):
    """
    Run a tool in this process. The status is "ok", "exit <code>", "raised <type>", or
    "crash" if the simulated process has died.
    """
    import importlib

    module, func = TOOLS[tool]
    f = getattr(importlib.import_module(module), func)
    keep = sys.argv, sys.stdout, sys.stderr
    sys.argv = [tool, *argv]
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        try:
            f()
            status = "ok"
        except SystemExit as x:
            status = "ok" if x.code in (None, 0) else f"exit {x.code!s:.80}"
        except disk.SimCrash:
            status = "crash"
        except Exception as x:
            status = f"raised {type(x).__name__}"
        out = sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr = keep
    return status, out


def plain(tree):
    """Zip archives as their members: their order and time stamps don't matter."""
    out = {}
    for k, v in tree.items():
        if v is not None and v[:4] in (b"PK\x03\x04", b"PK\x05\x06"):
            try:
                with zipfile.ZipFile(io.BytesIO(v)) as z:
                    if z.testzip() is None:
                        v = {n: z.read(n) for n in sorted(z.namelist())}
            except (zipfile.BadZipFile, EOFError, OSError, ValueError):
                pass
        out[k] = v
    return out


def tops(tree):
    """The names of the outputs: files and folders at the top of the output folders."""
    return sorted({"/".join(k.split("/")[:2]) for k in tree})


def below(tree, top):
    return {k: v for k, v in tree.items() if k == top or k.startswith(top + "/")}


def differ(a, b):
    """First difference of two trees, or None."""
    for k in sorted({*a, *b}):
        if k not in a:
            return f"{k} is additional"
        if k not in b:
            return f"{k} is missing"
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                return f"{k}: {differ(x, y)}"
            if x is None or y is None or isinstance(x, dict) or isinstance(y, dict):
                return f"{k}: of another kind"
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            i = max(i - 40, 0)
            return f"{k}: {len(x)} / {len(y)} bytes, {x[i:i + 100]!r} / {y[i:i + 100]!r}"
    return None


def digest(tree, root=None):
    h = sha256()
    for k in sorted(tree):
        v = tree[k]
        if isinstance(v, bytes) and v[:4] in (b"PK\x03\x04", b"PK\x05\x06"):
            v = b"an incomplete archive"  # the bytes contain the time
        if root is not None and isinstance(v, bytes):
            v = v.replace(str(root).encode(), b"ROOT")
        h.update(repr((k, v)).encode())
    return h.hexdigest()[:12]


def clock(seed):
    """A clock of another time that jumps, also backwards."""
    from .core import stream

    r = stream("clock", seed)
    CLOCK.arm(r.uniform(3e8, 2.1e9), [r.choice((0, 0, 3600, -7200, 1e7, -1e6)) for _ in range(5)])
