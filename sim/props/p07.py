"""P07: fonts don't influence each other in any interleaving of their use."""

from io import BytesIO
from pathlib import Path

from .. import disk, fontgen, obs
from ..core import Violation, stream
from ..sched import Interleaver, alone
from .p02 import assign
from .p04 import damaged

ID = "P07"
LEVEL = "exploration"
RUNS = {"quick": 2100, "thorough": 40000}
RULE = (
    "2 to 4 threads, each with a random font of its own and a random sequence of 1 to 6 "
    "operations (load, decode, single entries, glyph access, drawing, edits, pens, saves, "
    "exports, JSON, loads of damaged files, decoding of damaged entries), executed under a "
    "recorded schedule of up to 400 thread switches at arbitrary lines of library code; each "
    "thread's results equal those of the same operations in a process of its own."
)
STATES = "distinct (function switched in, operation of both threads) triples"
REAL = ["vfbLib", "ufoLib2", "fontTools", "threads (one at a time)"]
STUB = ["thread scheduler (sim.sched)", "clock"]
ASSUMPTIONS = [
    "Threads are switched at lines of vfbLib code only, not inside of the libraries it uses.",
    "The log level and other settings of the logging module belong to the process.",
]
TIMEOUT = 90
OPS = ("load", "dec", "some", "access", "drawn", "edit", "pen", "save", "file", "export", "json",
       "content", "bad", "badentry", "upm", "com", "hints")


def gen(r, tier):
    threads = []
    for _ in range(r.choice((2, 2, 2, 3, 4))):
        spec = fontgen.wild_spec(r, max_glyphs=3, max_font=6) if r.random() < 0.5 else (
            fontgen.export_spec(r, max_glyphs=3))
        n = r.choice((1, 2, 4, 6))
        threads.append({
            "spec": spec, "ops": [[r.choice(OPS), fontgen.seed(r)] for _ in range(n)],
            "minimal": r.random() < 0.1,
        })
    if r.random() < 0.3:
        # The same font and operations in two threads: the same code at the same time
        threads[1] = {**threads[0], "ops": [list(o) for o in threads[0]["ops"]]}
    scale = r.choice((2, 10, 50, 300, 2000))
    n = r.choice((2, 10, 60, 400))
    sched = [[1 + int(r.expovariate(1 / scale)), r.randrange(6)] for _ in range(n)]
    if r.random() < 0.5:
        sched[0][0] = r.randrange(1, 6000)
    return {"threads": threads, "sched": sched, "first": r.randrange(4)}


class User:
    """One thread's use of its font."""

    def __init__(self, t, scn, folder):
        self.t = t
        self.ops = scn["ops"]
        self.font = fontgen.build(scn["spec"])
        self.data = self.font.source()
        self.minimal = scn["minimal"]
        self.folder = folder
        self.now = "start"

    def __call__(self):
        from vfbLib.vfb.vfb import Vfb

        self.folder.mkdir(exist_ok=True)
        self.vfb = Vfb(timing=False, minimal=self.minimal)
        out = [("load", obs.attempt(self.load)), ("raw", obs.raw(self.vfb))]
        for op, seed in self.ops:
            self.now = op
            out.append((op, obs.attempt(getattr(self, op), stream("op", seed))))
        self.now = "last"
        out.append(("decode", obs.decode(self.vfb)))
        out.append(("content", obs.content(self.vfb)))
        out.append(("save", obs.save(self.vfb)))
        out.append(("raw", obs.raw(self.vfb)))
        self.now = "end"
        return out

    def load(self, r=None):
        if r is None or r.random() < 0.5:
            self.vfb.read_bytes(BytesIO(self.data))
        else:
            path = self.folder / "in.vfb"
            disk.write(path, self.data)
            self.vfb.vfb_path = path
            self.vfb.read()
        return len(self.vfb.entries)

    def dec(self, r):
        return obs.decode(self.vfb)

    def some(self, r):
        es = self.vfb.entries
        out = []
        for _ in range(4):
            e = r.choice(es)
            out.append(obs.attempt(e.decompile))
            out.append(obs.plain(e.as_dict()))
        return out

    def access(self, r):
        return obs.access(self.vfb)

    def drawn(self, r):
        return obs.drawn(self.vfb)

    def hints(self, r):
        from .p08 import hints

        return hints(self.vfb)

    def edit(self, r):
        free = [i for i, it in enumerate(self.font.items) if it.eid not in (1, 10, 1503, 1269, 2)]
        if len(self.vfb.entries) != len(self.font.items) or not free:
            return None
        i = r.choice(free)
        it = self.font.items[i]
        model, _ = fontgen.content(it.eid, r.random(), it.ctx)
        e = self.vfb.entries[i]
        e.decompile()
        if not assign(e.data, model):
            e.data = model
        return i

    def pen(self, r):
        names = list(self.vfb.keys())
        n = r.choice(names)
        for m in range(min(self.vfb.num_masters, 3)):
            g = self.vfb.getGlyphMaster(n, m)
            g.clearContours()
            pen = g.getPen()
            pen.moveTo((m, 0))
            for k in range(3):
                pen.lineTo((r.randrange(1000), k))
            pen.closePath()
        return obs.plain(self.vfb[n].entry.temp_masters)

    def save(self, r):
        return obs.save(self.vfb)

    def file(self, r):
        path = self.folder / "out.vfb"
        self.vfb.write(path)
        return disk.read(path)

    def com(self, r):
        self.vfb.compile()
        return obs.raw(self.vfb)

    def export(self, r):
        obs.attempt(self.vfb.decompile)
        return obs.exported(self.vfb) if r.random() < 0.7 else obs.attempt(
            obs.export, self.vfb, minimal=r.random() < 0.5, base64=r.random() < 0.5,
            pshints=r.random() < 0.5)

    def json(self, r):
        from vfbLib.json import write_vfb_json

        path = self.folder / "out.json"
        write_vfb_json(self.vfb, path)
        return disk.read(path)

    def content(self, r):
        return obs.content(self.vfb)

    def upm(self, r):
        return obs.upm(self.vfb)

    def bad(self, r):
        data, _ = damaged(self.font, self.data, [["flip", "any", r.random(), 1 + r.randrange(255)],
                                                 ["trunc", "any", r.random(), 0]], r.randrange(99))
        e = obs.attempt(self.vfb.read_bytes, BytesIO(data))
        out = (e, obs.raw(self.vfb))
        self.load()
        return out

    def badentry(self, r):
        e = r.choice(self.vfb.entries)
        old = e.data
        e.data = r.randbytes(r.randrange(30))
        out = (obs.attempt(e.decompile), obs.plain(e.data), self.vfb.any_errors)
        e.data = old
        return out


def run(scn, rec):
    folder = Path(rec.scratch)
    users = [User(i, t, folder / f"alone{i}") for i, t in enumerate(scn["threads"])]
    expected = [alone(u) for u in users]
    users = [User(i, t, folder / f"t{i}") for i, t in enumerate(scn["threads"])]
    il = Watched(users, scn["sched"], rec)
    results = il.run(scn["first"])
    rec.ev("threads", len(users), "switches", il.switches, "lines", il.lines)
    for name, a, b in il.at[:200]:
        rec.state(name, a, b)
        rec.ev("switch", name, a, b)
    rec.probe("thread switch", il.switches)
    for i, (want, got) in enumerate(zip(expected, results)):
        if isinstance(got, tuple):
            x = got[3]
            if type(x).__name__ == "BudgetExceeded":
                raise x
            if want[0] == "ok":
                raise Violation("thread failed", f"thread {i}: {got[:3]}")
            continue
        if want[0] != "ok":
            raise Violation("thread differs", f"thread {i} didn't fail with {want[1:]}")
        for n, (a, b) in enumerate(zip(want[1], got)):
            d = obs.differ(a, b)
            if d:
                raise Violation("thread differs", f"thread {i}, operation {n} ({b[0]}): {d}")
        if len(want[1]) != len(got):
            raise Violation("thread differs", f"thread {i}: {len(got)} results")
        rec.ev("thread", i, obs.digest(obs.dumps(got)))


class Watched(Interleaver):
    def switch(self, frame):
        n = len(self.at)
        me = self.jobs[self.current].now
        others = [t for t in self.alive if t != self.current]
        to = self.jobs[others[self.sched[0][1] % len(others)]].now if others else None
        name = frame.f_code.co_qualname
        self.at.append((name, me, to))
        super().switch(frame)
        # Keep what we noted, not the numbers of the threads
        if len(self.at) > n + 1:
            del self.at[n + 1]
