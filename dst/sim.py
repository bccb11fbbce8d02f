"""Helpers shared by the checks: simulated jobs, schedules, faults, comparisons."""
from __future__ import annotations

import math
import random

import torch

from . import dist as sd
from .kernel import Kernel, SimBudget, SimCrash, kernel  # noqa: F401

MODES = ("fifo", "random", "burst", "stall")


def gen_sched(rng, world):
    mode = rng.choice(MODES)
    s = {"seed": rng.randrange(10 ** 9), "mode": mode}
    if mode == "stall":
        s["mode"] = "random"
        s["stall"] = {str(rng.randrange(world)): rng.choice([20.0, 100.0, 500.0])}
    return s


class Job:
    """One simulated distributed job: every rank runs body(rank_context)."""

    def __init__(self, world, sched, faults=(), env=True, max_steps=60000):
        self.k = Kernel(sched, faults, max_steps=max_steps)
        self.net = sd.Net(self.k, world)
        self.world = world
        self.env = env

    def run(self, body, skews=None):
        for r in range(self.world):
            e = {"RANK": str(r), "WORLD_SIZE": str(self.world)} if self.env else {}
            self.k.spawn(body, env=e, skew=(skews or {}).get(r, 0.0))
        self.k.run()
        return self

    @property
    def procs(self):
        return self.k.procs

    def outcomes(self):
        return [p.outcome for p in self.k.procs]

    def errors(self):
        return {p.rank: p.error for p in self.k.procs if p.outcome != "ok"}

    def describe(self):
        parts = []
        for p in self.k.procs:
            if p.outcome != "ok":
                parts.append(f"rank {p.rank} {p.outcome} {type(p.error).__name__ if p.error else ''}: {str(p.error).splitlines()[0][:200] if str(p.error) else ''}")
        return "; ".join(parts) or "all ranks ok"

    def account(self, out):
        """Copy run statistics into an Out object."""
        k = self.k
        for f in k.fired:
            out.stats[f"fault:{f['kind']}"] += 1
        if k.sched.get("stall"):
            out.stats["fault:slow_rank"] += 1
        if k.sched.get("mode") == "burst":
            out.stats["fault:delay_bursts"] += 1
        for kind, n in self.net.collectives.items():
            out.stats[f"collective:{kind}"] += n
        out.stats["context_switches"] += k.switches
        out.stats["steps"] += k.steps
        out.simtime += k.now
        out.sig = out.sig + k.signature()
        out.trace = [list(t) for t in k.trace[-400:]]
        return out

    def anomaly(self, *kinds):
        """First anomaly of one of the kinds ('deadlock', 'mismatch', ...)."""
        for a in self.k.anomalies:
            if not kinds or a.split(":", 1)[0] in kinds:
                return a
        return None


def one_rank(fn, sched=None, env=None):
    """Run fn as the only simulated process; returns the Proc."""
    k = Kernel(sched or {"seed": 0, "mode": "fifo"})
    sd.Net(k, 1)
    p = k.spawn(lambda p: fn(), env=env or {})
    k.run()
    return p


def solo_setup(groups_count):
    """Values a non-distributed run gets from the environment set-up."""
    return {"device": torch.device("cpu"), "is_distributed": False, "is_nested": False, "rank": 0, "world_size": 1,
            "process_subgroup": None, "groups_to_ranks_mapping": {0: list(range(groups_count))},
            "heliostat_group_rank": 0, "heliostat_group_world_size": 1,
            "ranks_to_groups_mapping": {g: [0] for g in range(groups_count)}}


def close(a, b, rtol=1e-4, atol=1e-6):
    a, b = torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64)
    if a.shape != b.shape:
        return False
    return bool(torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def flux_close(a, b, rel=2e-4):
    """Bitmaps agree: total absolute difference small relative to the energy."""
    if a.shape != b.shape:
        return False
    if not (torch.isfinite(a).all() and torch.isfinite(b).all()):
        return bool(torch.equal(torch.isnan(a), torch.isnan(b)) and torch.equal(torch.isinf(a), torch.isinf(b)))
    d = (a.double() - b.double()).abs().flatten(1).sum(1) if a.dim() > 1 else (a.double() - b.double()).abs()
    s = torch.maximum(a.double().abs().flatten(1).sum(1), b.double().abs().flatten(1).sum(1)) if a.dim() > 1 else torch.maximum(a.double().abs(), b.double().abs())
    return bool((d <= rel * s + 1e-6).all())


def shrink_list(case, key):
    """Candidates that drop elements of a list entry."""
    xs = case.get(key) or []
    n = len(xs)
    if n > 1:
        for half in (xs[: n // 2], xs[n // 2:]):
            c = dict(case)
            c[key] = list(half)
            yield c
    for i in range(n):
        c = dict(case)
        c[key] = xs[:i] + xs[i + 1:]
        yield c


def shrink_sched(case, key="sched"):
    s = case.get(key)
    if s and (s.get("mode") != "fifo" or s.get("stall")):
        c = dict(case)
        c[key] = {"seed": 0, "mode": "fifo"}
        yield c
    if s and s.get("stall"):
        c = dict(case)
        c[key] = {"seed": s["seed"], "mode": "random"}
        yield c


def shrink_int(case, key, low=1):
    v = case.get(key)
    for w in (low, (low + v) // 2, v - 1):
        if low <= w < v:
            c = dict(case)
            c[key] = w
            yield c


_STEP_LIMIT = 400
_HOOKED = False


def hook_optimizer():
    """Every optimizer step of a simulated rank is a scheduling point and is counted."""
    global _HOOKED
    if _HOOKED:
        return
    _HOOKED = True
    from torch.optim.optimizer import register_optimizer_step_pre_hook

    def pre(opt, args, kwargs):
        k = kernel()
        if k is None:
            return
        p = k.current()
        p.data["opt_steps"] = p.data.get("opt_steps", 0) + 1
        per = p.data.setdefault("opt_per", {})
        per[id(opt)] = per.get(id(opt), 0) + 1
        p.data.setdefault("opt_keep", []).append(opt)
        if p.data["opt_steps"] > _STEP_LIMIT:
            raise SimBudget(f"more than {_STEP_LIMIT} optimisation steps")
        hook = p.data.get("on_step")
        if hook:
            hook(opt)
        k.point("optimizer-step")

    register_optimizer_step_pre_hook(pre)


def steps_per_optimizer(p):
    """Number of steps of each optimizer object a rank used, in order of first use."""
    return list(p.data.get("opt_per", {}).values())
