"""
Scheduling: real threads of which exactly one runs at any moment, switched at lines of
library code as a recorded schedule says, and the interruption of an operation at its
k-th line of library code.
"""

import os
import pickle
import sys
import threading

from .core import CLOCK, STEPS, HarnessError

LIB = os.sep + "vfbLib" + os.sep


def is_library(code) -> bool:
    return LIB in code.co_filename


class Interleaver:
    """
    Runs the functions `jobs` in a thread each. `sched` is a list of [gap, selector]: after
    `gap` more lines of library code the running thread is suspended and the thread
    number `selector` of those that haven't finished continues. When the list is used up,
    the threads run to their ends one after the other.
    """

    def __init__(self, jobs, sched, rec):
        self.jobs = jobs
        self.sched = list(sched)
        self.rec = rec
        self.results = [None] * len(jobs)
        self.locks = [threading.Lock() for _ in jobs]
        for lk in self.locks:
            lk.acquire()
        self.done = threading.Lock()
        self.done.acquire()
        self.alive = list(range(len(jobs)))
        self.current = 0
        self.left = None
        self.switches = 0
        self.lines = 0
        self.at = []
        self.next_gap()

    def next_gap(self):
        if self.sched:
            self.left = max(self.sched[0][0], 1)
        else:
            self.left = None

    def trace(self, frame, event, arg):
        if is_library(frame.f_code):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.switch(frame)
        return self.local

    def switch(self, frame):
        _, sel = self.sched.pop(0)
        self.next_gap()
        me = self.current
        others = [t for t in self.alive if t != me]
        if not others:
            return
        to = others[sel % len(others)]
        self.switches += 1
        c = frame.f_code
        self.at.append((c.co_qualname, me, to))
        self.current = to
        self.locks[to].release()
        self.locks[me].acquire()

    def body(self, t):
        self.locks[t].acquire()
        sys.settrace(self.trace)
        try:
            self.results[t] = self.jobs[t]()
        except BaseException as x:  # noqa: B036
            self.results[t] = ("raised", type(x).__name__, str(x)[:300], x)
        finally:
            sys.settrace(None)
            self.alive.remove(t)
            if self.alive:
                self.current = self.alive[0]
                self.locks[self.current].release()
            else:
                self.done.release()

    def run(self, first=0):
        threads = [
            threading.Thread(target=self.body, args=(t,), daemon=True)
            for t in range(len(self.jobs))
        ]
        for t in threads:
            t.start()
        self.current = first % len(self.jobs)
        self.locks[self.current].release()
        self.done.acquire()
        for t in threads:
            t.join()
        return self.results


class Interrupted(Exception):
    """Marks that the interruption has happened (never raised)."""


class Interrupt:
    """
    Runs an operation and raises `error` at its k-th line of library code; k None only
    counts. `fired`: the function that was interrupted.
    """

    def __init__(self, k, error):
        self.k = k
        self.error = error
        self.n = 0
        self.fired = None

    def trace(self, frame, event, arg):
        if is_library(frame.f_code):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.fired = frame.f_code.co_qualname
                sys.settrace(None)
                raise self.error("simulated")
        return self.local

    def __call__(self, f, *a, **kw):
        sys.settrace(self.trace)
        try:
            return f(*a, **kw)
        finally:
            sys.settrace(None)


def alone(f, *a):
    """Result of a function that runs in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            left, now = STEPS.left, CLOCK.now
            try:
                out = ("ok", f(*a))
            except BaseException as x:  # noqa: B036
                out = ("raised", type(x).__name__, str(x)[:300])
            data = pickle.dumps((out, left - STEPS.left, CLOCK.now - now))
            while data:
                data = data[os.write(wr, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    chunks = []
    while b := os.read(rd, 1 << 16):
        chunks.append(b)
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    if status:
        raise HarnessError(f"child ended with status {status}")
    out, steps, time = pickle.loads(b"".join(chunks))
    if 0 < steps < 1 << 40:
        STEPS.left -= steps
    if CLOCK.active:
        CLOCK.now += abs(time)
    return out
