"""
The simulated disk: all file access of the process goes through here while it is
installed. Contents live in a scratch folder; every operation is a numbered event, at
which the plan can inject a fault:

  err    the operation fails (no space after a part is written, I/O error, permission,
         too many open files, error on close)
  full   the disk is full from here on until the fault stops (sticky)
  crash  the process dies at this operation: buffered data is lost, and files written
         since the disk was installed may be cut to any length (nothing was synced)

and, independent of the plan, short reads and writes, interrupted calls (EINTR) and the
order of directory listings, all drawn from the seed of the plan.
"""

import builtins
import errno
import io
import os
import sys

from .core import stream

_real = {
    "open": builtins.open, "FileIO": io.FileIO, "mkdir": os.mkdir, "rename": os.rename,
    "replace": os.replace, "unlink": os.unlink, "remove": os.remove, "rmdir": os.rmdir,
    "listdir": os.listdir, "scandir": os.scandir, "ftruncate": os.ftruncate,
}


class SimCrash(BaseException):
    """The simulated process dies."""


APPLICABLE = {
    "open-r": ("EACCES", "EMFILE", "EIO"),
    "open-w": ("EACCES", "EMFILE", "ENOSPC", "EROFS"),
    "read": ("EIO",),
    "write": ("ENOSPC", "EIO", "EDQUOT"),
    "close-w": ("EIO", "ENOSPC"),
    "mkdir": ("ENOSPC", "EACCES"),
    "rename": ("EIO", "EACCES"),
    "unlink": ("EACCES", "EIO"),
    "rmdir": ("EACCES", "EIO"),
    "list": ("EIO", "EACCES"),
}


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.path = path
        self.f = _real["FileIO"](path, mode)
        self._w = "w" in mode or "a" in mode or "x" in mode or "+" in mode
        self.name = path
        self.mode = mode

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def fileno(self):
        return self.f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def readinto(self, b):
        d = self.disk
        d.event("read", self.path)
        n = len(b)
        if n > 1 and d.soft is not None:
            k = d.soft.random()
            if k < d.soft_p / 3:
                d.rec.fault("EINTR on read")
                raise InterruptedError(errno.EINTR, "interrupted")
            if k < d.soft_p:
                n = d.soft.choice((1, 1, 2, 3, 7, n // 2 or 1))
                n = min(n, len(b))
                d.rec.fault("short read")
        data = self.f.read(n)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        d = self.disk
        b = bytes(b)

        def partial():
            # A part of the data reaches the disk before the error
            k = d.cut % (len(b) + 1)
            if k:
                self.f.write(b[:k])

        d.event("write", self.path, partial)
        n = len(b)
        if n > 1 and d.soft is not None:
            k = d.soft.random()
            if k < d.soft_p / 3:
                d.rec.fault("EINTR on write")
                raise InterruptedError(errno.EINTR, "interrupted")
            if k < d.soft_p:
                n = max(1, d.soft.choice((1, n // 3, n - 1)))
                d.rec.fault("short write")
        return self.f.write(b[:n])

    def close(self):
        if self.closed:
            return
        d = self.disk
        try:
            if d.installed and not d.frozen:
                if self._w:
                    d.event("close-w", self.path)
        finally:
            self.f.close()
            super().close()


class Listing:
    def __init__(self, entries):
        self.it = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def close(self):
        pass


class Disk:
    def __init__(self, rec, plan=None):
        plan = plan or {}
        self.rec = rec
        self.seed = plan.get("seed", 0)
        self.soft_p = plan.get("soft", 0.0)
        self.soft = stream("soft", self.seed) if self.soft_p else None
        self.cut = plan.get("cut", 0)
        # Operations that don't fail: a fault is moved to the next operation
        self.spare = plan.get("spare", ())
        self.xdev = plan.get("xdev")  # this folder is on a file system of its own
        self.faults = {}
        self.n = 0
        self.frozen = False
        self.full = False
        self.installed = False
        self.log = []
        self.fired = []
        self.written = {}
        self.read_paths = set()
        self.changed = []  # every path that was created, written, renamed or removed
        self.lists = 0

    def plan(self, faults, total):
        """faults: [{"at": fraction, "class": ..., "sel": n}], total: events of a dry run"""
        for f in faults:
            at = int(f["at"] * max(total, 1)) if isinstance(f["at"], float) else f["at"]
            self.faults[at] = f

    # -------------------------------------------------------------- events

    def event(self, op, path, partial=None):
        if self.frozen:
            raise SimCrash(f"{op} after the crash")
        i = self.n
        self.n += 1
        self.log.append((op, os.path.basename(path)))
        f = self.faults.get(i)
        if f is None:
            if self.full and op in ("write", "open-w", "mkdir"):
                if partial:
                    partial()
                self.fired.append((i, op, path, "ENOSPC"))
                self.rec.fault(f"full disk on {op}")
                self.rec.ev("fault", i, op, "full", os.path.basename(path))
                raise OSError(errno.ENOSPC, "No space left on device", path)
            return
        cls = f["class"]
        if cls != "crash" and op in self.spare:
            self.faults.setdefault(i + 1, f)
            return
        if cls == "crash":
            if partial:
                partial()
            self.crash(f)
            self.fired.append((i, op, path, "crash"))
            self.rec.fault(f"crash at {op}")
            self.rec.ev("fault", i, op, "crash", os.path.basename(path))
            raise SimCrash(f"at {op} {path}")
        kinds = APPLICABLE[op]
        kind = kinds[f.get("sel", 0) % len(kinds)]
        if cls == "full":
            if op not in ("write", "open-w", "mkdir"):
                self.faults[i + 1] = f  # at the next operation that needs space
                return
            kind = "ENOSPC"
            self.full = True
        if partial:
            partial()
        self.fired.append((i, op, path, kind))
        self.rec.fault(f"{kind} on {op}")
        self.rec.ev("fault", i, op, kind, os.path.basename(path))
        raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), path)

    def crash(self, f):
        self.frozen = True
        r = stream("torn", self.seed, f.get("sel", 0))
        mode = f.get("sel", 0) % 3
        for path in sorted(self.written):
            if mode == 0 or not os.path.isfile(path):
                continue
            n = os.path.getsize(path)
            k = 0 if mode == 1 else r.randint(0, n)
            if k < n:
                self.rec.fault("lost data" if k == 0 else "torn data")
                fd = os.open(path, os.O_WRONLY)
                _real["ftruncate"](fd, k)
                os.close(fd)

    # -------------------------------------------------------------- patched calls

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fspath(file))
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        raw_mode = mode.replace("t", "").replace("b", "").replace("U", "")
        w = any(c in raw_mode for c in "wax+")
        self.event("open-w" if w else "open-r", path)
        raw = SimRaw(self, path, raw_mode)
        if w:
            self.written[path] = 1
            self.changed.append(path)
        else:
            self.read_paths.add(path)
        try:
            if buffering == 0:
                if "b" not in mode:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in raw_mode:
                buf = io.BufferedRandom(raw, size)
            elif w:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def _path(self, p, dir_fd=None):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None:
            try:
                return os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            except OSError:
                return p
        return os.path.abspath(p)

    def _one(self, op, name):
        real = _real[name]

        def call(path, *a, dir_fd=None, **k):
            p = self._path(path, dir_fd)
            self.event(op, p)
            if dir_fd is not None:
                k["dir_fd"] = dir_fd
            res = real(path, *a, **k)
            self.changed.append(p)
            return res

        return call

    def _two(self, op, name):
        real = _real[name]

        def call(src, dst, **k):
            p, q = self._path(src), self._path(dst)
            self.event(op, p)
            if self.xdev and (p + "/").startswith(self.xdev) != (q + "/").startswith(self.xdev):
                self.rec.fault("rename to another file system")
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), p, None, q)
            res = real(src, dst, **k)
            self.changed += [p, q]
            if p in self.written:
                self.written[q] = self.written.pop(p)
            return res

        return call

    def _order(self, items):
        if self.seed:
            self.lists += 1
            items = sorted(items, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
            stream("list", self.seed, self.lists).shuffle(items)
        return items

    def listdir(self, path="."):
        if not isinstance(path, int):
            self.event("list", self._path(path))
        return self._order(_real["listdir"](path))

    def scandir(self, path="."):
        if not isinstance(path, int):
            self.event("list", self._path(path))
        with _real["scandir"](path) as it:
            return Listing(self._order(list(it)))

    # -------------------------------------------------------------- installation

    def __enter__(self):
        import tempfile

        self.installed = True
        builtins.open = io.open = self.open
        tempfile._io = _TempIO(self)
        self._names = tempfile._name_sequence
        tempfile._name_sequence = _names(self.seed)
        os.mkdir = self._one("mkdir", "mkdir")
        os.unlink = self._one("unlink", "unlink")
        os.remove = self._one("unlink", "remove")
        os.rmdir = self._one("rmdir", "rmdir")
        os.rename = self._two("rename", "rename")
        os.replace = self._two("rename", "replace")
        os.listdir = self.listdir
        os.scandir = self.scandir
        self._hook = sys.unraisablehook
        sys.unraisablehook = lambda x: None
        return self

    def __exit__(self, *a):
        import tempfile

        builtins.open = io.open = _real["open"]
        tempfile._io = io
        tempfile._name_sequence = self._names
        for k in ("mkdir", "unlink", "remove", "rmdir", "rename", "replace", "listdir", "scandir"):
            setattr(os, k, _real[k])
        self.installed = False
        import gc

        gc.collect()
        sys.unraisablehook = self._hook
        return None


def _names(seed):
    """Names of temporary files"""
    r = stream("names", seed)
    while True:
        yield "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


class _TempIO:
    def __init__(self, disk):
        self._disk = disk

    def open(self, *a, **k):
        return self._disk.open(*a, **k)

    def __getattr__(self, name):
        return getattr(io, name)


# ---------------------------------------------------------------- helpers (real disk)


def read(path) -> bytes:
    with _real["open"](path, "rb") as f:
        return f.read()


def write(path, data: bytes):
    with _real["open"](path, "wb") as f:
        f.write(data)


def tree(root) -> dict:
    """All files and folders below root with their contents."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, root)] = read(p)
    return out


class SimStream(io.RawIOBase):
    """A seekable byte source with short reads, interruptions and a failing point."""

    def __init__(self, data, rec, seed=0, soft=0.0, fail_at=None, error="EIO"):
        self.data = data
        self.pos = 0
        self.rec = rec
        self.r = stream("stream", seed)
        self.soft = soft
        self.fail_at = fail_at
        self.error = error
        self.failed = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, n, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + n
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = len(b)
        if self.soft and n > 1:
            k = self.r.random()
            if k < self.soft / 3:
                self.rec.fault("EINTR on read")
                raise InterruptedError(errno.EINTR, "interrupted")
            if k < self.soft:
                n = min(n, self.r.choice((1, 1, 2, 3, 7, 100)))
                self.rec.fault("short read")
        if self.fail_at is not None and self.pos + n > self.fail_at:
            n = self.fail_at - self.pos
            if n <= 0:
                self.failed = True
                self.rec.fault(f"{self.error} on read")
                self.rec.ev("fault read", self.error, self.fail_at)
                raise OSError(getattr(errno, self.error), "read error")
        chunk = self.data[self.pos : self.pos + n]
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


def buffered(raw, size=8192):
    return io.BufferedReader(raw, max(size, 1))
