"""C18: stopping and learning-rate control follow the configured rules for every loss history."""
import math
from collections import deque

import torch

from dst import recon, sim, world
from dst.runner import Out

from checks.c06 import KINDS, gen_spec, shrink_job

from artist.optim.loss import Loss


class Scripted(Loss):
    """A user loss whose value per epoch is prescribed; it keeps the graph of the prediction."""

    def __init__(self, values):
        super().__init__(loss_function=torch.nn.MSELoss(reduction="none"))
        self.values = values
        self.calls = 0

    def __call__(self, prediction, ground_truth, **kw):
        v = self.values[min(self.calls, len(self.values) - 1)]
        self.calls += 1
        rows = prediction.flatten(1)
        return rows.sum(dim=1) * 0.0 + v


def prescribed(case, n):
    v = [float(x) for x in case["script"]]
    return (v + [v[-1]] * n)[:n]


def triggers(losses, job):
    """Epochs at which the documented early-stopping rule asks to stop, and the number of idle windows after each epoch."""
    win, idle, hits, idles = deque(maxlen=job["es_win"]), 0, [], []
    for e, x in enumerate(losses):
        win.append(x)
        if len(win) == job["es_win"]:
            gain = (win[0] - win[-1]) / max(abs(win[0]), 1e-8)
            idle = 0 if gain > job["es_delta"] else idle + 1
            if idle >= job["es_pat"]:
                hits.append(e)
        idles.append(idle)
    return hits, idles


def rates(losses, job, lr0, n):
    """Learning rate of each of n steps."""
    if job["sched"] == "exponential":
        return [lr0 * 0.9 ** e for e in range(n)]
    lo, hi = 1e-6, 2 * job["lr"]
    if job["sched"] == "cyclic":
        out = []
        for e in range(n):
            x = (e / 3) % 2
            out.append(lo + (hi - lo) * (x if x <= 1 else 2 - x))
        return out
    out, lr, best, bad = [lr0], lr0, math.inf, 0
    for x in losses[: n - 1]:
        if x < best * (1 - 1e-3):
            best, bad = x, 0
        else:
            bad += 1
        if bad > 0:
            new = max(lr * 0.5, lo)
            if lr - new > 1e-8:
                lr = new
            bad = 0
        out.append(lr)
    return out


class Check:
    id = "C18"
    level = "exploration"
    rule = ("one run = one seeded optimisation on one to four ranks, half of them with a prescribed loss history (plateaus, jumps, spikes, NaN), checked step by step against a reference of the documented stopping and learning-rate rules; "
            "non-trivial = at least two optimizer steps, distinct by schedule trace, job and loss history")
    measure = "hash of the (rank, yield point) sequence plus job kind and loss script"
    real = ["KinematicsReconstructor, SurfaceReconstructor, AimPointOptimizer, EarlyStopping, scheduler factories, environment set-up, torch optimizers and schedulers, torch.distributed front end"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)", "in half of the runs the user-supplied loss (prescribed values)"]
    assumptions = ["learning rates agree to 1e-4 relative", "an epoch budget of N allows N+1 optimisation steps, as in the released code"]
    tiers = {"quick": dict(cases=360, wall=60), "thorough": dict(cases=8000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        scripted = rng.random() < 0.6
        spec = gen_spec(rng, kind, max_groups=2)
        if scripted and kind != "aim":
            spec["groups"] = spec["groups"][:1]   # one prescribed history per rank
        job = recon.gen_job(rng, kind, spec, epochs=(1, 14))
        job["es_win"], job["es_pat"] = rng.randint(1, 5), rng.randint(1, 4)
        job["es_delta"] = rng.choice([1e-4, 0.0137, 0.123])   # no ties with the scripted ratios
        job["log_step"] = rng.choice([0, 1, 5, 50])
        script = None
        if scripted:
            x, script = rng.choice([1.0, 5.0, 100.0]), []
            for _ in range(job["max_epoch"] + 2):
                x *= rng.choice([1.0, 1.0, 0.99, 0.9, 0.5, 1.5])
                script.append(x)
            if rng.random() < 0.15:
                script[rng.randrange(len(script))] = rng.choice(["nan", "inf", 0.0])
            job["tol"] = rng.choice([0.0, 0.5, 3.0])
            if rng.random() < 0.25:   # losses that may become negative
                shift = script and rng.choice([0.5, 1.5, 3.0]) * 5.0
                script = [x if isinstance(x, str) else x - shift for x in script]
                job["tol"] = -1e9
            job["loss"] = "pixel" if kind != "kin_align" else "angle"
            job["ws"] = job["wi"] = 0.0
        w = rng.randint(1, 4)
        return dict(spec=spec, job=job, ranks=w, script=script, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w = case["spec"], case["job"], case["ranks"]
        kind = job["kind"]
        ng = len(spec["groups"])
        if kind != "aim":
            recon.measurements(spec, job)
        world.template(spec)
        inner = recon.rank_body(spec, job)

        def body(p):
            lrs = p.data.setdefault("lrs", {})

            def on_step(opt):
                lrs.setdefault(id(opt), []).append([float(g["lr"]) for g in opt.param_groups])
            p.data["on_step"] = on_step
            if case["script"] is not None:
                vals = [float(v) for v in case["script"]]
                p.data["loss"] = lambda: Scripted(vals)
            return inner(p)

        run = sim.Job(w, case["sched"], max_steps=60000)
        run.run(body)
        run.account(out)
        out.sig = f"{kind}:{w}:{case['script']}:" + out.sig
        steps_all = [n for p in run.procs for n in sim.steps_per_optimizer(p)]
        out.nontrivial = max(steps_all or [0]) > 1
        out.stats["kind:" + kind] += 1
        out.stats["scripted" if case["script"] else "real_loss"] += 1
        tag = f"{kind} with {w} ranks (max_epoch {job['max_epoch']}, tolerance {job['tol']}, window {job['es_win']}, patience {job['es_pat']}, improvement {job['es_delta']}, {job['sched']})"
        if run.outcomes() != ["ok"] * w:
            if kind == "aim" and any("does not require grad" in str(p.error) for p in run.procs):
                return out
            if any(p.outcome == "budget" for p in run.procs):
                return out.fail("unbounded", f"{tag}: {run.describe()}")
            return out.fail("raised", f"{tag}: {run.anomaly() or ''} {run.describe()}")
        mapping = run.procs[0].result["ddp"]["groups_to_ranks_mapping"]
        for p in run.procs:
            hist = p.result["history"]
            if kind == "aim":
                todo = [("all groups", hist["total_loss"], hist, True)]
            else:
                groups = [g for g in mapping[p.rank] if sum(job["counts"][g]) > 0]
                if len(hist[p.rank]) != len(groups):
                    return out.fail("history", f"{tag}: rank {p.rank} reports {len(hist[p.rank])} histories for groups {groups}")
                todo = [(f"group {g}", h["total_loss"], h, False) for g, h in zip(groups, hist[p.rank])]
            lrs = list(p.data["lrs"].values())
            if len(lrs) != len(todo):
                return out.fail("history", f"{tag}: rank {p.rank} used {len(lrs)} optimizers for {len(todo)} histories")
            for (name, h, full, with_stop), lr in zip(todo, lrs):
                S, L = len(lr), len(h)
                t = f"{tag}: rank {p.rank}, {name}: {S} steps, losses {[float(f'{x:.6g}') for x in h]}"
                for key, v in full.items():
                    if key not in ("total_loss", "test_loss") and isinstance(v, list) and len(v) not in ((0, L) if kind == "aim" else (L,)):
                        return out.fail("history", f"{t}: {key} has {len(v)} entries")
                if case["script"] is not None and kind != "surface":
                    want = prescribed(case, L)
                    if any(not (abs(a - b) <= 1e-4 * abs(b) or a == b or (a != a and b != b)) for a, b in zip(h, want)):
                        return out.fail("history", f"{t}: the recorded losses are not the losses {want} of the epochs")
                if S > job["max_epoch"] + 1:
                    return out.fail("unbounded", f"{t}")
                hits, idles = triggers(h, job)
                goes_on = [x > job["tol"] for x in h]
                if not all(goes_on[:-1]):
                    return out.fail("tolerance", f"{t}: went on although the tolerance was reached")
                if with_stop:
                    if S != L or any(e < L - 1 for e in hits):
                        return out.fail("early-stop", f"{t}: early stopping was due at {hits}")
                    if not hits and goes_on[-1] and S < job["max_epoch"] + 1:
                        return out.fail("early-stop", f"{t}: stopped without a reason")
                elif hits:
                    return out.fail("early-stop", f"{t}: early stopping was due at {hits}")
                elif S == L:
                    if goes_on[-1] and S < job["max_epoch"] + 1:
                        return out.fail("early-stop", f"{t}: stopped without a reason")
                elif S == L + 1:
                    # the loss of the stopping epoch is not recorded; the rule must have been one idle window short
                    if L and not goes_on[-1]:
                        return out.fail("tolerance", f"{t}: went on although the tolerance was reached")
                    if S < job["es_win"] or (idles[-1] if L else 0) + 1 < job["es_pat"]:
                        return out.fail("early-stop", f"{t}: stopped early after {idles[-1] if L else 0} idle windows")
                    if case["script"] is not None and kind != "surface" and S - 1 not in triggers(prescribed(case, S), job)[0]:
                        return out.fail("early-stop", f"{t}: stopped early, losses {prescribed(case, S)} do not ask for it")
                else:
                    return out.fail("history", f"{t}: {S} steps but {L} losses")
                lr0 = job["lr"] * 2 if kind == "aim" else job["lr"]
                want = rates(h, job, lr0, S)
                for e in range(S):
                    for got in lr[e]:
                        if e < len(want) and abs(got - want[e]) > 1e-4 * want[e] + 1e-9:
                            near = job["sched"] == "reduce_on_plateau" and case["script"] is None
                            if not near:
                                return out.fail("learning-rate", f"{t}: learning rate {got:.6g} at step {e}, {job['sched']} prescribes {want[e]:.6g}")
                            out.stats["plateau_near_tie"] += 1
        return out

    def shrink(self, case):
        for c in shrink_job(case):
            yield c
        if case["script"] is not None and len(case["script"]) > 1:
            yield dict(case, script=case["script"][:-1])


CHECK = Check()
