"""Simulated disk: file operations of a forked process under native/iosim.c.

A *file job* runs a function in a forked child (one simulated process with its own
file handles) whose file operations below the scratch directory are numbered.  Faults
are attached to operation numbers; a token per operation lets a seeded scheduler
interleave several such processes operation by operation.
"""
from __future__ import annotations

import ctypes
import errno
import os
import pickle
import shutil
import signal
import tempfile

KINDS = {"errno": 1, "short": 2, "crash": 3, "torn": 4, "eof": 5, "signal": 6, "eintr": 7}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        if not hasattr(_lib, "iosim_arm"):
            raise RuntimeError("the disk simulator is not preloaded; start the check with ./check")
        _lib.iosim_log.restype = ctypes.c_char_p
        for f in ("iosim_fault", "iosim_capacity"):
            getattr(_lib, f).argtypes = [ctypes.c_long] + ([ctypes.c_int, ctypes.c_int] if f == "iosim_fault" else [])
        _lib.iosim_ops.restype = _lib.iosim_fired.restype = ctypes.c_long
    return _lib


def arm(prefix, faults=(), capacity=None):
    L = lib()
    L.iosim_arm(os.path.realpath(prefix).encode())
    for f in faults:
        L.iosim_fault(int(f["op"]), KINDS[f["kind"]], {"errno": getattr(errno, f.get("errno", "EIO")), "signal": signal.SIGINT}.get(f["kind"], 0))
    if capacity is not None:
        L.iosim_capacity(int(capacity))


def disarm():
    L = lib()
    L.iosim_disarm()
    return dict(ops=L.iosim_log().decode(), fired=int(L.iosim_fired()))


class Result:
    """How a simulated process ended: 'ok', 'error' (an exception), 'crash' (simulated death) or 'signal' (killed by the kernel)."""

    def __init__(self, outcome, value=None, error=None, ops="", fired=0):
        self.outcome, self.value, self.error, self.ops, self.fired = outcome, value, error, ops, fired


class Child:
    def __init__(self, fn, prefix, faults=(), capacity=None, tokens=False, power=False):
        self.power = tempfile.TemporaryFile(dir=os.path.dirname(os.path.realpath(prefix)) or ".") if power else None
        self.res_r, res_w = os.pipe()
        self.tin_w = self.tout_r = None
        tin_r = tout_w = -1
        if tokens:
            tin_r, self.tin_w = os.pipe()
            self.tout_r, tout_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 98
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 2)
                os.dup2(devnull, 1)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                os.close(self.res_r)
                if tokens:
                    os.close(self.tin_w)
                    os.close(self.tout_r)
                arm(prefix, faults, capacity)
                if power:
                    lib().iosim_powerlog(self.power.fileno())
                if tokens:
                    lib().iosim_tokens(tin_r, tout_w)
                try:
                    value, err = fn(), None
                except BaseException as e:  # noqa: BLE001
                    value, err = None, (type(e).__name__, str(e)[:300])
                st = disarm()
                with os.fdopen(res_w, "wb") as f:
                    pickle.dump((value, err, st), f)
                code = 0
            finally:
                os._exit(code)
        os.close(res_w)
        if tokens:
            os.close(tin_r)
            os.close(tout_w)
        self.done = None

    def next_op(self):
        """The operation the process is about to make, or None if it has ended."""
        c = os.read(self.tout_r, 1)
        return c.decode() if c else None

    def go(self, kill=False):
        try:
            os.write(self.tin_w, b"K" if kill else b"G")
        except OSError:
            pass

    def wait(self):
        with os.fdopen(self.res_r, "rb") as f:
            raw = f.read()
        for fd in (self.tin_w, self.tout_r):
            if fd is not None:
                os.close(fd)
        _, status = os.waitpid(self.pid, 0)
        if os.WIFSIGNALED(status):
            return Result("signal", error=("signal", str(os.WTERMSIG(status))))
        if not raw:
            return Result("crash" if os.WEXITSTATUS(status) == 99 else "signal", error=("exit", str(os.WEXITSTATUS(status))))
        value, err, st = pickle.loads(raw)
        return Result("error" if err else "ok", value, err, st["ops"], st["fired"])


def run(fn, prefix, faults=(), capacity=None):
    return Child(fn, prefix, faults, capacity).wait()


def power_loss(fn, prefix, faults, rng):
    """Run a process until it ends or dies, then lose power: what was written but not synced to the disk survives in part or not at all."""
    c = Child(fn, prefix, faults, power=True)
    res = c.wait()
    dirty = set()
    with c.power as f:
        f.seek(0)
        for line in f.read().decode().splitlines():
            what, ino = line.split()
            if what == "W":
                dirty.add(int(ino))
            elif what == "S":
                dirty.discard(int(ino))
            else:
                dirty.clear()
    lost = []
    for root, _, files in os.walk(prefix):
        for name in sorted(files):
            p = os.path.join(root, name)
            if os.lstat(p).st_ino in dirty and not os.path.islink(p):
                size = os.path.getsize(p)
                how = rng.choice(["all", "empty", "cut", "zeros"])
                if how in ("empty", "cut"):
                    os.truncate(p, 0 if how == "empty" else int(size * rng.random()))
                elif how == "zeros" and size:
                    with open(p, "r+b") as g:
                        at = int(size * rng.random())
                        g.seek(at)
                        g.write(bytes(size - at))
                lost.append(how)
    return res, lost


class Scratch:
    """A scratch directory that is removed afterwards."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dst-disk-", dir=os.getcwd())
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
