"""Clocks seen by the code under test: virtual while a simulation asks for it, real otherwise."""
import threading
import time

REAL = {n: getattr(time, n) for n in ("perf_counter", "monotonic", "time", "process_time", "thread_time")}
REAL.update({n + "_ns": getattr(time, n + "_ns") for n in list(REAL)})
_local = threading.local()


def use(clock):
    """clock: object with elapsed(), wall() and cpu() in seconds, or None for the real clocks; per thread."""
    _local.clock = clock


def _wrap(name):
    real = REAL[name]
    base = name.removesuffix("_ns")
    which = {"perf_counter": "elapsed", "monotonic": "elapsed", "time": "wall"}.get(base, "cpu")

    def read():
        c = getattr(_local, "clock", None)
        if c is None:
            return real()
        t = getattr(c, which)()
        return round(t * 1e9) if name.endswith("_ns") else t
    read.__name__ = name
    return read


def install():
    """Before ARTIST is imported, so that clocks it binds by name are covered too."""
    for name in REAL:
        setattr(time, name, _wrap(name))
