"""
The simulator core: seeded streams, the step budget, the recorder, isolated execution of
runs, minimisation and replay.

One integer (VERIF_SEED) decides everything. Run i of property P is a pure function of
(seed, P, i): its scenario (fonts, operations, faults, schedule choices) is drawn from
Random(sha256(seed/P/i)) and written down as JSON before it is executed; executing it
draws no further random numbers except from streams named in the scenario. Each run
executes in a forked child of a pristine parent, so that no run sees what another left
behind in the process.
"""

import gc
import hashlib
import io
import json
import logging
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

SRC = os.environ.get("VFBSIM_SRC", "/repo/src")
HERE_CHECK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wall = _time.perf_counter
real_time = _time.time


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class BudgetExceeded(BaseException):
    """An operation took more steps than its bound."""


class HarnessError(Exception):
    pass


def stream(*parts) -> random.Random:
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h, "big"))


# ------------------------------------------------------------------- simulated clock


class Clock:
    """The only clock the library sees. Advances by itself and can jump."""

    def __init__(self):
        self.active = False
        self.now = 0.0
        self.reads = 0
        self.start = 0.0
        self.jumps = ()

    def arm(self, now=1_700_000_000.0, jumps=()):
        self.active = True
        self.now = self.start = now
        self.reads = 0
        self.jumps = tuple(jumps)

    def time(self):
        if not self.active:
            return real_time()
        self.reads += 1
        step = 0.0125
        if self.jumps:
            step += self.jumps[self.reads % len(self.jumps)]
        self.now += step
        return self.now


CLOCK = Clock()


# ------------------------------------------------------------------- loading the code

_loaded = False


def load_library():
    """Import vfbLib from the working tree, from source, under the simulated clock."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    # Third party code first, with its normal caches
    import fontTools.cu2qu.ufo  # noqa: F401
    import fontTools.designspaceLib  # noqa: F401
    import fontTools.pens.basePen  # noqa: F401
    import fontTools.pens.recordingPen  # noqa: F401
    import fontTools.ttLib.tables.ttProgram  # noqa: F401
    import fontTools.ufoLib  # noqa: F401
    import ufoLib2  # noqa: F401
    import ufonormalizer  # noqa: F401

    try:
        import fontTools.misc.filesystem  # noqa: F401
    except ImportError:
        pass
    for name in ("orjson", "cattrs", "tomli_w", "yaml", "difflib", "argparse", "zipfile",
                 "ufoLib2.converters", "ufoLib2.serde.json", "ufoLib2.serde"):
        try:
            __import__(name)
        except ImportError:
            pass

    _time.time = CLOCK.time
    # Don't trust any bytecode cache of the code under test
    sys.pycache_prefix = "/nonexistent-pycache"
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import importlib
    import pkgutil

    import vfbLib

    if not os.path.realpath(vfbLib.__file__).startswith(os.path.realpath(SRC) + os.sep):
        raise HarnessError(f"vfbLib is loaded from {vfbLib.__file__}")
    for m in pkgutil.walk_packages(vfbLib.__path__, "vfbLib."):
        importlib.import_module(m.name)
    logging.disable(logging.CRITICAL)
    _loaded = True


# ------------------------------------------------------------------- step budget


class Steps:
    """
    Counts calls and jumps (loop iterations) executed in vfbLib code, and ends an
    operation that takes more than its budget. This is simulated effort, independent of
    the speed of the machine.
    """

    TOOL = 4

    def __init__(self):
        self.left = 1 << 60
        self.stack = []
        self.on = False

    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vfbsim-steps")
        E = mon.events

        def hit(code, *args):
            self.left -= 1
            if self.left < 0:
                self.left = 1 << 60
                raise BudgetExceeded(f"in {code.co_qualname}")

        mon.register_callback(self.TOOL, E.PY_START, hit)
        mon.register_callback(self.TOOL, E.JUMP, hit)
        for code in library_code():
            mon.set_local_events(self.TOOL, code, E.PY_START | E.JUMP)
        self.on = True

    def arm(self, budget: int):
        """Begin an operation, possibly within another one."""
        self.stack.append((self.left, budget))
        self.left = budget

    def disarm(self) -> int:
        outer, budget = self.stack.pop()
        used = budget - self.left if self.left <= budget else budget
        self.left = outer - used
        return used


STEPS = Steps()


def library_code():
    """All code objects of the library."""
    seen = set()
    todo = []
    for name, mod in sorted(sys.modules.items()):
        if name == "vfbLib" or name.startswith("vfbLib."):
            todo.append(mod)
    out = []

    def code(c):
        if c in seen:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                code(k)

    done = set()

    def visit(obj, depth=0):
        if id(obj) in done or depth > 6:
            return
        done.add(id(obj))
        f = getattr(obj, "__func__", obj)
        if hasattr(f, "__code__"):
            if "vfbLib" in f.__code__.co_filename:
                code(f.__code__)
            w = getattr(f, "__wrapped__", None)
            if w is not None:
                visit(w, depth + 1)
            return
        if isinstance(obj, property):
            for g in (obj.fget, obj.fset, obj.fdel):
                if g is not None:
                    visit(g, depth + 1)
            return
        if hasattr(obj, "func") and type(obj).__name__ == "cached_property":
            visit(obj.func, depth + 1)
            return
        if isinstance(obj, type) and getattr(obj, "__module__", "").startswith("vfbLib"):
            for v in list(vars(obj).values()):
                visit(v, depth + 1)

    for mod in todo:
        for v in list(vars(mod).values()):
            visit(v)
    return out


# ------------------------------------------------------------------- recorder


class Rec:
    """What happened in one run."""

    def __init__(self, keep=False):
        self.keep = keep
        self.events: list[str] = []
        self.n = 0
        self.h = hashlib.sha256()
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.marks: list[str] = []
        self.scratch = None

    def ev(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.n += 1
        self.h.update(s.encode("utf-8", "backslashreplace"))
        self.h.update(b"\n")
        if self.keep and len(self.events) < 2000:
            self.events.append(s)

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        """A state or interleaving reached, for counting distinct ones."""
        self.marks.append(
            hashlib.sha256(repr(parts).encode("utf-8", "backslashreplace")).hexdigest()[:12]
        )


def in_library(tb) -> bool:
    while tb is not None:
        if "/vfbLib/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def lib_site(exc) -> str:
    """Innermost library function of an exception."""
    tb, site = exc.__traceback__, "?"
    while tb is not None:
        c = tb.tb_frame.f_code
        if "/vfbLib/" in c.co_filename:
            site = f"{os.path.basename(c.co_filename)}:{c.co_name}"
        tb = tb.tb_next
    return site


def execute(prop, scn, keep=False, scratch=None) -> dict:
    """Execute one scenario in this process."""
    rec = Rec(keep)
    rec.scratch = scratch
    CLOCK.arm()
    out = {"viol": None, "error": None}
    STEPS.arm(getattr(prop, "MAX_STEPS", 100_000_000))
    try:
        prop.run(scn, rec)
    except Violation as v:
        out["viol"] = [v.kind, v.msg[:1500]]
    except BudgetExceeded as x:
        out["viol"] = ["hang", f"step budget exceeded {x}"]
    except HarnessError as x:
        out["error"] = f"{x}\n{traceback.format_exc()[-2500:]}"
    except BaseException as x:  # noqa: B036
        if in_library(x.__traceback__):
            out["viol"] = [
                f"unexpected {type(x).__name__} in {lib_site(x)}",
                f"{x!r:.300}\n{traceback.format_exc()[-1800:]}",
            ]
        else:
            out["error"] = traceback.format_exc()[-2500:]
    used = STEPS.disarm()
    CLOCK.active = False
    if out["viol"] is not None:
        rec.ev("VIOLATION", out["viol"][0])
    out.update(
        n=rec.n, hash=rec.h.hexdigest()[:16], faults=dict(rec.faults), probes=dict(rec.probes),
        marks=rec.marks, steps=used, sim=round(CLOCK.now - CLOCK.start, 3),
        events=rec.events if keep else [],
    )
    return out


# ------------------------------------------------------------------- isolated runs


def isolated(prop, scn, keep=False, timeout=60.0, root=None) -> dict:
    """Execute one scenario in a forked child with a scratch folder of its own."""
    rd, wr = os.pipe()
    scratch = tempfile.mkdtemp(prefix="run", dir=root)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            sys.stdout = io.StringIO()
            tempfile.tempdir = scratch
            os.environ["TMPDIR"] = scratch
            os.chdir(scratch)
            out = execute(prop, scn, keep, scratch)
            data = json.dumps(out).encode()
            while data:
                n = os.write(wr, data)
                data = data[n:]
        except BrokenPipeError:
            code = 4
        except BaseException:  # noqa: B036
            try:
                os.write(2, traceback.format_exc().encode()[-3000:])
            finally:
                code = 3
        finally:
            os._exit(code)
    os.close(wr)
    chunks = []
    end = wall() + timeout
    killed = False
    while True:
        left = end - wall()
        if left <= 0:
            killed = True
            break
        ready, _, _ = select.select([rd], [], [], min(left, 5))
        if ready:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(rd)
    if killed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    empty = {"n": 0, "hash": "", "faults": {}, "probes": {}, "marks": [], "steps": 0,
             "sim": 0, "events": [], "error": None}
    if killed:
        return {**empty, "viol": ["hang", f"the run didn't end within {timeout:.0f} s"]}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {**empty, "viol": None, "error": f"the run ended with status {status}"}


def scenario(prop, seed: int, i: int, tier: str):
    r = stream(seed, prop.ID, i)
    return json.loads(json.dumps(prop.gen(r, tier)))


# ------------------------------------------------------------------- minimisation

LISTS = ("entries", "ops", "faults", "threads", "steps", "edits", "history", "glyphs",
         "jumps", "sched")


def _lists(x, path=()):
    """Paths of all lists in the scenario that may be shortened."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in LISTS and isinstance(v, list):
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, value):
    if not path:
        return value
    if isinstance(x, dict):
        return {k: _with(v, path[1:], value) if k == path[0] else v for k, v in x.items()}
    return [_with(v, path[1:], value) if i == path[0] else v for i, v in enumerate(x)]


def minimise(prop, scn, kind, limit=40.0, root=None):
    """Shorten the scenario while the same kind of violation persists."""
    end = wall() + limit
    tries = 0

    def fails(s):
        nonlocal tries
        tries += 1
        r = isolated(prop, s, timeout=20, root=root)
        return r["viol"] is not None and r["viol"][0] == kind

    changed = True
    while changed and wall() < end:
        changed = False
        for path in sorted(_lists(scn), key=len):
            try:
                lst = _get(scn, path)
            except (KeyError, IndexError, TypeError):
                continue
            size = max(len(lst) // 2, 1)
            while lst and wall() < end:
                i = 0
                hit = False
                while i < len(lst) and wall() < end:
                    cand = _with(scn, path, lst[:i] + lst[i + size :])
                    if fails(cand):
                        scn = cand
                        lst = _get(scn, path)
                        changed = hit = True
                    else:
                        i += size
                if size == 1 and not hit:
                    break
                size = max(size // 2, 1)
        # Plain encodings and normal sizes are simpler
        for path in [p for p in _lists(scn) if p[-1] == "entries"]:
            lst = _get(scn, path)
            for i, e in enumerate(lst):
                if wall() > end:
                    break
                if isinstance(e, list) and len(e) >= 4 and (e[2] or e[3]):
                    cand = _with(scn, path + (i,), [e[0], e[1], 0, 0, *e[4:]])
                    if fails(cand):
                        scn = cand
                        changed = True
    return scn, tries


# ------------------------------------------------------------------- the check


def _worker(prop, seed, tier, indexes, wr, root, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    f = os.fdopen(wr, "w")
    for i in indexes:
        if wall() > deadline:
            break
        t = wall()
        try:
            scn = scenario(prop, seed, i, tier)
        except Exception:
            res = {"error": "gen: " + traceback.format_exc()[-2000:], "viol": None, "n": 0,
                   "hash": "", "faults": {}, "probes": {}, "marks": [], "steps": 0, "sim": 0}
        else:
            res = isolated(prop, scn, timeout=getattr(prop, "TIMEOUT", 60), root=root)
        res["i"] = i
        res["wall"] = wall() - t
        f.write(json.dumps(res) + "\n")
        f.flush()
    f.close()
    os._exit(0)


def run_all(prop, seed, tier, count, root, jobs=8, budget=600.0, stop_after=3):
    """All runs, in parallel. Which worker executes a run makes no difference."""
    deadline = wall() + budget
    pipes = {}
    pids = []
    gc.collect()
    gc.freeze()
    for w in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                _worker(prop, seed, tier, range(w, count, jobs), wr, root, deadline)
            finally:
                os._exit(0)
        os.close(wr)
        pipes[rd] = b""
        pids.append(pid)
    results = []
    bad = 0
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 5)
        for rd in ready:
            b = os.read(rd, 1 << 20)
            if not b:
                os.close(rd)
                del pipes[rd]
                continue
            pipes[rd] += b
            *lines, pipes[rd] = pipes[rd].split(b"\n")
            for line in lines:
                res = json.loads(line)
                results.append(res)
                if res["viol"]:
                    bad += 1
        if bad >= stop_after * 8:
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
            break
    for rd in pipes:
        os.close(rd)
    for pid in pids:
        os.waitpid(pid, 0)
    results.sort(key=lambda x: x["i"])
    return results
