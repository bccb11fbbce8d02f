"""C12: every heliostat is reconstructed from its own measurements, and a model that is right has nothing to correct."""
import random

import torch

from dst import recon, sim, world
from dst.kernel import kernel
from dst.runner import Out

from artist.util import env as aenv

from checks.c06 import gen_spec, shrink_job

DEV = torch.device("cpu")
KINDS = ("kin_flux", "kin_align", "surface")
LIMIT = {"kl": 1e-4, "pixel": 2e-3, "focal": 5e-3, "angle": 1e-3, "kl_div": 1e-4, "pixel_loss": 2e-3, "focal_spot_loss": 5e-3}


def only(spec, job, data, g, h):
    """The same measurements with those of one heliostat alone."""
    sc_names = [names[0] for names in world.heliostat_names(spec)]
    first = {n: i for i, n in enumerate(sc_names)}
    res = {}
    for name, (flux, spots, inc, motors, counts, targets) in data.items():
        keep = torch.zeros_like(counts)
        rows = []
        if first.get(name, -1) == g:
            keep[h] = counts[h]
            lo = int(counts[:h].sum())
            rows = list(range(lo, lo + int(counts[h])))
        r = torch.tensor(rows, dtype=torch.long)
        res[name] = (flux[r], spots[r], inc[r], motors[r], keep, targets[r])
    return res


class Check:
    id = "C12"
    level = "exploration"
    rule = ("one run = one seeded kinematics or surface reconstruction step over one to four ranks and one to three groups with uneven data, either of measurements taken from the scenario itself (every training and test loss must vanish) "
            "or of disturbed ones, where losses and first gradients of each heliostat are compared with a one-process run that is given the data of that heliostat alone; non-trivial = several heliostats with data, distinct by schedule trace and job")
    measure = "hash of the (rank, yield point) sequence plus job kind, counts and mode"
    real = ["KinematicsReconstructor, SurfaceReconstructor, train/test split, ray tracer, kinematics, environment set-up, torch optimizers, torch.distributed front end"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)"]
    assumptions = ["nearly point-like sun, so that the deliberately different ray draws of ranks and rows are irrelevant", "surfaces are flat where measurements are to be reproduced (see known finding of C15)", "single precision: gradients agree to 20 % in direction, losses to 1e-3"]
    tiers = {"quick": dict(cases=240, wall=60), "thorough": dict(cases=6000, wall=1200)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 3]
        spec = gen_spec(rng, kind, tiny_sun=True)
        for g in spec["groups"]:
            g["n"] = rng.randint(1, 4)
        job = recon.gen_job(rng, kind, spec)
        for k, c in enumerate(job["counts"]):
            s = rng.randint(2, 5)
            job["counts"][k] = [s if x else 0 for x in c]
        mode = rng.choice(["twin", "twin", "alone"])
        if kind == "surface":
            spec["flat"] = mode == "twin" or rng.random() < 0.4
        weight = (0.0, 0.0) if mode == "twin" else (rng.choice([0.0, 1.0]), rng.choice([0.0, 1.0]))   # regularisers compare with the own initial surface
        job.update(ws=weight[0], wi=weight[1], tol=0.0, es_delta=-1e9, max_epoch=0, log_step=1)
        if mode == "twin":
            job["lr"] = 1e-9
        w = rng.randint(1, 4)
        return dict(spec=spec, job=job, mode=mode, ranks=w, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w, mode = case["spec"], case["job"], case["ranks"], case["mode"]
        ng = len(spec["groups"])
        kind = job["kind"]
        data = recon.twin(spec, job) if mode == "twin" else recon.measurements(spec, job)
        world.template(spec)

        def watch(p):
            seen = p.data.setdefault("grads", [])

            def on_step(opt):
                if id(opt) not in p.data.setdefault("opt_seen", set()):
                    p.data["opt_seen"].add(id(opt))
                    seen.append([None if q.grad is None else q.grad.detach().clone() for pg in opt.param_groups for q in pg["params"]])
            p.data["on_step"] = on_step

        run = sim.Job(w, case["sched"], max_steps=40000)

        def body(p):
            watch(p)
            sc = world.fresh(spec)
            with aenv.setup_distributed_environment(number_of_heliostat_groups=ng, device=DEV) as d:
                res = recon.run(spec, job, d, sc, measured=data)
                res["mapping"] = d["groups_to_ranks_mapping"]
            return res
        run.run(body)
        run.account(out)
        out.sig = f"{kind}:{mode}:{w}:{job['counts']}:" + out.sig
        out.nontrivial = sum(c > 0 for cs in job["counts"] for c in cs) > 1
        out.stats[f"{mode}:{kind}"] += 1
        tag = f"{kind} ({job['loss']}) with {w} ranks, samples {job['counts']}"
        if run.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{tag}: {run.anomaly() or ''} {run.describe()}")
        start = [sum(g["n"] for g in spec["groups"][:k]) for k in range(ng)]
        for p in run.procs:
            r = p.result
            for g in range(ng):
                for h, c in enumerate(job["counts"][g]):
                    v = float(r["final"][start[g] + h])
                    if (c == 0) != (v == float("inf")):
                        return out.fail("own", f"{tag}: rank {p.rank}: final loss of heliostat {h} of group {g}, which has {c} samples, is {v}")
            if mode == "twin":
                for g in range(ng):
                    for h, c in enumerate(job["counts"][g]):
                        v = float(r["final"][start[g] + h])
                        out.stats["losses_checked"] += 1
                        if c and not v <= LIMIT[job["loss"]]:
                            return out.fail("twin", f"{tag}: rank {p.rank}: the loss of heliostat {h} of group {g} is {v:.4g} for measurements of the scenario itself")
                for k, groups in enumerate(r["history"]):
                    for e in groups:
                        if not all(v <= LIMIT[job["loss"]] for v in e["total_loss"]):
                            return out.fail("twin", f"{tag}: rank {k} reports losses {e['total_loss']} for measurements of the scenario itself")
                        for name, t in e["test_loss"].items():
                            out.stats["losses_checked"] += t.numel()
                            if t.numel() and not float(t.max()) <= LIMIT.get(name, 5e-3):
                                return out.fail("twin", f"{tag}: rank {k}: {name} of the test samples is {[round(float(x), 5) for x in t]} for measurements of the scenario itself")
        return out if mode == "twin" else self.alone(case, run, data, start, tag, out)

    def alone(self, case, run, data, start, tag, out):
        """Losses and first gradients of a heliostat are those of a run that knows its data only."""
        spec, job = case["spec"], case["job"]
        ng = len(spec["groups"])
        for g in range(ng):
            for h, c in enumerate(job["counts"][g]):
                if not c:
                    continue
                mine = only(spec, job, data, g, h)

                def solo():
                    p = kernel().current()
                    seen = p.data.setdefault("grads", [])
                    p.data["on_step"] = lambda opt: seen.append([None if q.grad is None else q.grad.detach().clone() for pg in opt.param_groups for q in pg["params"]])
                    return recon.run(spec, job, sim.solo_setup(ng), world.fresh(spec), measured=mine)
                q = sim.one_rank(solo)
                if q.outcome != "ok":
                    return out.fail("raised", f"{tag}: the data of heliostat {h} of group {g} alone: {type(q.error).__name__}: {str(q.error)[:120]}")
                want = float(q.result["final"][start[g] + h])
                for p in run.procs:
                    got = float(p.result["final"][start[g] + h])
                    if not sim.close(got, want, 2e-3, 1e-5):
                        return out.fail("own", f"{tag}: rank {p.rank}: the loss of heliostat {h} of group {g} is {got:.6g}, but {want:.6g} from its own measurements alone")
                    groups = [x for x in p.result["mapping"][p.rank] if sum(job["counts"][x]) > 0]
                    if g not in groups:
                        continue
                    a, b = p.data["grads"][groups.index(g)][0], q.data["grads"][0][0]
                    if a is None or b is None:
                        continue
                    a, b = a.double().flatten(1)[h], b.double().flatten(1)[h]
                    if float(b.norm()) < 1e-5:
                        continue
                    out.stats["gradients_compared"] += 1
                    a, b = a / max(float(a.norm()), 1e-30), b / float(b.norm())
                    if float((a - b).norm()) > 0.2:
                        return out.fail("own", f"{tag}: rank {p.rank} first moves heliostat {h} of group {g} along {[round(float(v), 4) for v in a[:6]]}, but along {[round(float(v), 4) for v in b[:6]]} from its own measurements alone")
                others = torch.ones(len(q.data["grads"][0][0]), dtype=torch.bool) if q.data["grads"][0][0] is not None else None
                if others is not None:
                    others[h] = False
                    if bool((q.data["grads"][0][0][others] != 0).any()):
                        return out.fail("own", f"{tag}: measurements of heliostat {h} of group {g} move other heliostats")
        return out

    def shrink(self, case):
        yield from shrink_job(case)


CHECK = Check()
