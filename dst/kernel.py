"""Deterministic discrete-event kernel.

One simulated *process* (a rank of the distributed job, or a plain client) is one
Python thread, but only one thread ever runs at a time: every thread parks on a
private semaphore and the kernel hands the baton to exactly one of them.  Which
one, and how much virtual time each step takes, is decided by a seeded PRNG, so a
(case, schedule seed) pair is one exactly repeatable execution.

A simulated process keeps its own random-number-generator state (torch, numpy,
random), its own virtual clock and its own environment, because in a deployment
it would be a separate operating-system process.
"""
from __future__ import annotations

import hashlib
import random
import threading
import traceback

import numpy
import torch

CURRENT = threading.local()


class SimCrash(BaseException):
    """The simulated process is killed here (never caught by ``except Exception``)."""


class SimAbort(BaseException):
    """The simulation is over; unwinds a parked thread."""


class SimBudget(BaseException):
    """A deterministic step budget was exhausted (bounded-progress violation)."""


class Proc:
    def __init__(self, rank, fn):
        self.rank = rank
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.state = "ready"  # ready, blocked, done
        self.wake_at = 0.0
        self.clock = 0.0
        self.skew = 0.0
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.label = "start"
        self.result = None
        self.error = None          # exception instance
        self.error_tb = ""
        self.outcome = None        # ok, error, crash, abort, budget
        self.rng = None
        self.env = {}
        self.ops = 0               # yield points passed
        self.thread = None
        self.data = {}


class Kernel:
    """Seeded scheduler over simulated processes."""

    def __init__(self, sched, faults=(), max_steps=200000):
        # sched: {"seed": int, "mode": "fifo"|"random"|"stall"|"burst", ...}
        self.sched = dict(sched)
        self.mode = self.sched.get("mode", "random")
        self.rng = random.Random(f"sched:{self.sched.get('seed', 0)}")
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.procs = []
        self.main_sem = threading.Semaphore(0)
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []
        self.anomalies = []
        self.switches = 0
        self.last_run = None
        self.over = False
        self.stall = {int(k): float(v) for k, v in self.sched.get("stall", {}).items()}
        self.on_exit = []      # callbacks(proc) when a process ends

    # ------------------------------------------------------------------ setup
    def spawn(self, fn, skew=0.0, env=None):
        p = Proc(len(self.procs), fn)
        p.skew = skew
        p.env = dict(env or {})
        self.procs.append(p)
        return p

    # -------------------------------------------------------------- rank side
    def current(self):
        return getattr(CURRENT, "proc", None)

    def delay(self, p):
        m = self.mode
        if m == "fifo":
            return 1e-3
        base = self.rng.expovariate(1.0) * 1e-3
        if m == "burst" and self.rng.random() < 0.1:
            base += self.rng.random() * 0.5
        return base * self.stall.get(p.rank, 1.0)

    def point(self, label):
        """A scheduling point of the running process."""
        p = self.current()
        if p is None or p.data.get("_quiet"):
            return
        p.ops += 1
        p.label = label
        p.wake_at = p.clock + self.delay(p)
        p.state = "ready"
        self._park(p)

    def block(self, pred, label, timeout=None):
        """Block the running process until pred() holds; False on timeout."""
        p = self.current()
        p.ops += 1
        p.label = label
        p.pred = pred
        p.timed_out = False
        p.deadline = None if timeout is None else p.clock + timeout
        p.state = "blocked"
        self._park(p)
        p.pred = None
        return not p.timed_out

    def _park(self, p):
        p.rng = (torch.get_rng_state(), numpy.random.get_state(), random.getstate())
        self.main_sem.release()
        p.sem.acquire()
        torch.set_rng_state(p.rng[0])
        numpy.random.set_state(p.rng[1])
        random.setstate(p.rng[2])
        if self.over:
            raise SimAbort()
        if p.data.pop("_kill", False):
            raise SimCrash(f"killed at {p.label}")

    def _body(self, p):
        CURRENT.proc = p
        CURRENT.kernel = self
        p.sem.acquire()
        # A fresh process starts from a fixed generator state.
        torch.manual_seed(1000003 + p.rank)
        numpy.random.seed(7919 + p.rank)
        random.seed(104729 + p.rank)
        try:
            if self.over:
                raise SimAbort()
            p.result = p.fn(p)
            p.outcome = "ok"
        except SimCrash as e:
            p.outcome, p.error = "crash", e
        except SimAbort as e:
            p.outcome, p.error = "abort", e
        except SimBudget as e:
            p.outcome, p.error = "budget", e
        except BaseException as e:  # noqa: BLE001
            p.outcome, p.error = "error", e
            p.error_tb = traceback.format_exc()
        finally:
            p.state = "done"
            for cb in self.on_exit:
                try:
                    cb(p)
                except BaseException as e:  # noqa: BLE001
                    self.anomalies.append(f"harness: on_exit {e!r}")
            CURRENT.proc = None
            self.main_sem.release()

    # ---------------------------------------------------------- scheduler side
    def run(self):
        saved = (torch.get_rng_state(), numpy.random.get_state(), random.getstate())
        for p in self.procs:
            p.thread = threading.Thread(target=self._body, args=(p,), daemon=True)
            p.thread.start()
        try:
            while True:
                p = self._pick()
                if p is None:
                    break
                self._dispatch(p)
                if self.steps >= self.max_steps:
                    self.anomalies.append("budget: scheduler step budget exhausted")
                    break
        finally:
            self.over = True
            for p in self.procs:
                while p.state != "done":
                    p.sem.release()
                    self.main_sem.acquire()
                p.thread.join(30)
            torch.set_rng_state(saved[0])
            numpy.random.set_state(saved[1])
            random.setstate(saved[2])
        return self

    def _dispatch(self, p):
        self.steps += 1
        self.now = max(self.now, p.wake_at)
        p.clock = max(p.clock, p.wake_at)
        if self.last_run is not p.rank:
            self.switches += 1
        self.last_run = p.rank
        self.trace.append((p.rank, p.label))
        p.state = "running"
        p.sem.release()
        self.main_sem.acquire()

    def _pick(self):
        live = [p for p in self.procs if p.state != "done"]
        if not live:
            return None
        for p in live:
            if p.state == "blocked" and p.pred():
                p.state = "ready"
                p.wake_at = max(p.clock, self.now) + self.delay(p)
        ready = [p for p in live if p.state == "ready"]
        nxt = min(ready, key=lambda p: (p.wake_at, p.rank)) if ready else None
        timers = [p for p in live if p.state == "blocked" and p.deadline is not None]
        tmr = min(timers, key=lambda p: (p.deadline, p.rank)) if timers else None
        if tmr is not None and (nxt is None or tmr.deadline < nxt.wake_at):
            tmr.timed_out = True
            tmr.state = "ready"
            tmr.wake_at = tmr.deadline
            return tmr
        if nxt is None:
            self.anomalies.append(
                "deadlock: " + "; ".join(f"rank {p.rank} waits at {p.label}" for p in live)
            )
            return None
        return nxt

    # ----------------------------------------------------------------- results
    def signature(self):
        h = hashlib.sha256()
        for r, l in self.trace:
            h.update(f"{r}:{l};".encode())
        return h.hexdigest()[:16]

    def take_fault(self, kind, rank, op):
        """Consume a planned fault whose kind/rank/op position match."""
        for f in self.faults:
            if f.get("kind") == kind and f.get("rank") == rank and f.get("op") == op and not f.get("_done"):
                f["_done"] = True
                self.fired.append({k: v for k, v in f.items() if not k.startswith("_")})
                return f
        return None


def kernel():
    return getattr(CURRENT, "kernel", None) if getattr(CURRENT, "proc", None) is not None else None
