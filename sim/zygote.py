"""
Processes with other hash seeds. A few interpreters with different values of
PYTHONHASHSEED are started once per check; each loads the library and then forks a
process per request, so that a run can execute a function under another hash
randomisation as fast as under its own.
"""

import importlib
import os
import pickle
import socket
import struct
import subprocess
import sys
import tempfile
import threading

from .core import HERE_CHECK, HarnessError

SEEDS = (0, 1, 2, 3, 4242, 99991)
DIR = None
_procs = []


def start(root):
    """Start the interpreters; their sockets lie in root."""
    global DIR
    DIR = os.path.join(root, "zygotes")
    os.mkdir(DIR)
    for s in SEEDS:
        env = dict(os.environ, PYTHONHASHSEED=str(s), VFBSIM_ZYGOTE=os.path.join(DIR, str(s)))
        r, w = os.pipe()
        p = subprocess.Popen(
            [sys.executable, HERE_CHECK, "--zygote", str(w)], env=env, pass_fds=(w,),
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
        )
        os.close(w)
        _procs.append((p, r))
    for p, r in _procs:
        if os.read(r, 1) != b"+":
            raise HarnessError("an interpreter could not be started")
        os.close(r)


def stop():
    for p, _ in _procs:
        p.stdin.close()
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    _procs.clear()


def _all(sock, n):
    b = b""
    while len(b) < n:
        c = sock.recv(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _send(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack("<I", len(b)) + b)


def _receive(sock):
    (n,) = struct.unpack("<I", _all(sock, 4))
    return pickle.loads(_all(sock, n))


def call(seed, module, func, *args):
    """Result of a function in a new process with the hash seed number `seed`."""
    with socket.socket(socket.AF_UNIX) as s:
        cwd = os.open(".", os.O_RDONLY)
        try:
            os.chdir(DIR)  # paths of sockets must be short
            s.connect(str(SEEDS[seed % len(SEEDS)]))
        finally:
            os.chdir(cwd)
            os.close(cwd)
        _send(s, (module, func, args, os.getcwd()))
        try:
            return _receive(s)
        except EOFError:
            raise HarnessError("a process with another hash seed died") from None


def serve(ready):
    """The loop of such an interpreter. It ends when its input is closed."""
    from . import core

    core.load_library()
    core.STEPS.install()
    path = os.environ["VFBSIM_ZYGOTE"]
    os.chdir(os.path.dirname(path))
    lst = socket.socket(socket.AF_UNIX)
    lst.bind(os.path.basename(path))
    lst.listen(64)
    threading.Thread(target=lambda: (sys.stdin.read(), os._exit(0)), daemon=True).start()
    import signal

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    import gc

    gc.collect()
    gc.freeze()
    os.write(ready, b"+")
    os.close(ready)
    while True:
        conn, _ = lst.accept()
        if os.fork() == 0:
            code = 1
            try:
                lst.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                module, func, args, cwd = _receive(conn)
                os.chdir(cwd)
                core.CLOCK.arm()
                core.STEPS.arm(200_000_000)
                before = core.STEPS.left
                try:
                    out = ("ok", getattr(importlib.import_module(module), func)(*args))
                except BaseException as x:  # noqa: B036
                    out = ("raised", type(x).__name__, str(x)[:300])
                _send(conn, (out, before - core.STEPS.left, core.CLOCK.now - core.CLOCK.start))
                code = 0
            finally:
                os._exit(code)
        conn.close()
