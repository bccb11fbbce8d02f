"""C07: replicas agree and a distributed optimisation computes what one process computes."""
import torch

from dst import recon, sim, world
from dst.kernel import kernel
from dst.runner import Out

from checks.c06 import KINDS, gen_spec, shrink_job

ALL = ("rot", "trans", "act", "nonopt", "motors", "cps", "points", "normals", "pos")


def flat(history):
    return recon.plain(history)


def same(a, b):
    """Equal plain histories; NaN (an idle rank's empty mean) equals NaN."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Check:
    id = "C07"
    level = "exploration"
    rule = ("one run = one seeded distributed optimisation (kinematics by flux or alignment, surface, aim points; nested or not; idle ranks and groups without data included) whose ranks are compared with each other after every "
            "optimizer step and at the end and, if all random draws can be made partition independent, with a one-process run of the same job; non-trivial = at least two ranks, distinct by schedule trace and job")
    measure = "hash of the (rank, yield point) sequence plus job kind and sizes"
    real = ["KinematicsReconstructor, SurfaceReconstructor, AimPointOptimizer, training loop helpers, ray tracer, environment set-up, torch optimizers, torch.distributed front end with autograd collectives"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)"]
    assumptions = ["refinement against one process uses a nearly point-like sun when a group is shared by ranks, because ranks deliberately draw different sunshape rays",
                   "single precision: losses agree to 1e-3 relative, first gradients per heliostat to 5 % in direction, final parameters of a heliostat to 10 % of the distance the optimisation moved them, beyond ten times the effect of 20 micrometre position disturbances on the one-process run"]
    tiers = {"quick": dict(cases=300, wall=65), "thorough": dict(cases=6000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        refine = rng.random() < 0.7
        spec = gen_spec(rng, kind, tiny_sun=refine)
        job = recon.gen_job(rng, kind, spec)
        if refine:
            job.update(ws=0.0, wi=0.0, tol=rng.choice([0.0, 0.0, 0.0, 1e9]))
            if kind == "surface":
                job["lr"] = 2e-5
                job.update(ws=rng.choice([0.0, 0.0, 1.0, 30.0]), wi=rng.choice([0.0, 0.0, 1.0, 30.0]))
            job.update(rng.choice([dict(es_delta=-1e9), dict(es_delta=-1e9), dict(es_delta=1e9)]))
        w = rng.randint(2, 5)
        return dict(spec=spec, job=job, ranks=w, refine=refine, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w = case["spec"], case["job"], case["ranks"]
        ng = len(spec["groups"])
        kind = job["kind"]
        if kind != "aim":
            recon.measurements(spec, job)
        world.template(spec)

        def watch(p):
            """Record what each optimizer is about to apply first."""
            seen = p.data.setdefault("grads", [])

            def on_step(opt):
                if id(opt) not in p.data.setdefault("opt_seen", set()):
                    p.data["opt_seen"].add(id(opt))
                    seen.append([None if q.grad is None else q.grad.detach().clone() for pg in opt.param_groups for q in pg["params"]])
            p.data["on_step"] = on_step

        def solo():
            p = kernel().current()
            watch(p)
            return recon.run(spec, job, sim.solo_setup(ng), world.fresh(spec))
        ref = sim.one_rank(solo)
        if ref.outcome != "ok":
            # a job that one process cannot finish (all rays steered off the target) has nothing to compare
            out.stats["reference_failed"] += 1
            return out
        start = recon.state(world.fresh(spec))
        run = sim.Job(w, case["sched"], max_steps=40000)
        inner = recon.rank_body(spec, job)

        def body(p):
            watch(p)
            return inner(p)
        run.run(body)
        run.account(out)
        out.sig = f"{kind}:{w}:{[g['n'] for g in spec['groups']]}:" + out.sig
        out.nontrivial = w > 1
        out.stats["kind:" + kind] += 1
        tag = f"{kind} with {w} ranks, groups of {[g['n'] for g in spec['groups']]}, samples {job['counts'] if kind != 'aim' else 'n/a'}"
        if run.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{tag}: {run.anomaly() or ''} {run.describe()}")
        res = [p.result for p in run.procs]
        keys = recon.OPTIMISED[kind]
        # replicas agree with each other
        for p, r in zip(run.procs, res):
            for g in range(ng):
                for key in keys:
                    a, b = res[0]["state"][g][key], r["state"][g][key]
                    if a.shape != b.shape or not torch.equal(a, b):
                        return out.fail("replicas", f"{tag}: after the run, {key} of group {g} differs between rank 0 and rank {p.rank} by up to {float((a - b).abs().max()) if a.shape == b.shape else 'shape'}")
                for key in ALL:
                    if key not in keys and not torch.equal(r["state"][g][key], start[g][key]) and not torch.equal(ref.result["state"][g][key], r["state"][g][key]) and key != "motors":
                        return out.fail("side-effect", f"{tag}: rank {p.rank} changed {key} of group {g}")
            if not torch.equal(r["final"], res[0]["final"]):
                return out.fail("replicas", f"{tag}: final loss differs between rank 0 ({res[0]['final'].tolist()}) and rank {p.rank} ({r['final'].tolist()})")
            if not same(flat(r["history"]), flat(res[0]["history"])):
                return out.fail("replicas", f"{tag}: rank {p.rank} reports a different loss history than rank 0: {str(flat(r['history']))[:300]} / {str(flat(res[0]['history']))[:300]}")
            if kind == "aim":
                for key in ("intercept", "on_target", "blocking"):
                    if not torch.equal(r[key], res[0][key]):
                        return out.fail("replicas", f"{tag}: {key} factors differ between rank 0 ({res[0][key].tolist()}) and rank {p.rank} ({r[key].tolist()})")
        # ranks sharing a group went through the same losses
        mapping = res[0]["ddp"]["groups_to_ranks_mapping"]
        if kind != "aim":
            hist = res[0]["history"]
            if len(hist) != w:
                return out.fail("history", f"{tag}: {len(hist)} per-rank histories for {w} ranks")
            per_group = {}
            for r in range(w):
                mine = [g for g in mapping[r] if sum(job["counts"][g]) > 0]
                if len(hist[r]) != len(mine):
                    return out.fail("history", f"{tag}: rank {r} reports {len(hist[r])} group histories, it processed groups {mine}")
                for g, h in zip(mine, hist[r]):
                    per_group.setdefault(g, []).append((r, flat(h["total_loss"])))
            for g, hs in per_group.items():
                for r, h in hs[1:]:
                    if not same(h, hs[0][1]):
                        return out.fail("replicas", f"{tag}: ranks {hs[0][0]} and {r} share group {g} but went through losses {hs[0][1]} and {h}")
        if not case["refine"]:
            return out
        # refinement of the one-process run
        out.stats["refined"] += 1
        one = ref.result
        # how much rounding-sized disturbances change the outcome of the one-process job itself
        nudged = []
        for n in range(6):
            def disturbed():
                sc = world.fresh(spec)
                if n >= 2:   # other draws of the same nearly point-like sun, as other ranks have them
                    for light in sc.light_sources.light_source_list:
                        light.get_distortions = lambda *a, draw=light.get_distortions, random_seed=7, **k: draw(*a, random_seed=random_seed + 100 * n, **k)
                    return recon.run(spec, job, sim.solo_setup(ng), sc)
                gen = torch.Generator().manual_seed(n)
                for g in sc.heliostat_field.heliostat_groups:
                    shift = 2e-5 * torch.randn(g.positions.shape[0], 3, generator=gen)
                    g.positions[:, :3] += shift
                    if g.kinematics.heliostat_positions is not g.positions and g.kinematics.heliostat_positions.data_ptr() != g.positions.data_ptr():
                        g.kinematics.heliostat_positions[:, :3] += shift
                return recon.run(spec, job, sim.solo_setup(ng), sc)
            q = sim.one_rank(disturbed)
            if q.outcome == "ok":
                nudged.append(q.result)

        def agree(get, rtol, atol):
            a, b = get(res[0]), get(one)
            if a.shape != b.shape:
                return False
            noise = torch.zeros_like(b)
            for q in nudged:
                c = get(q)
                if c.shape != b.shape:
                    return True
                noise = torch.maximum(noise, (c - b).abs().nan_to_num(0.0, 0.0, 0.0))
            # a disturbance of one entry may reach any other one after a few coupled steps
            noise = noise.max() if noise.numel() else 0.0
            ok = (a == b) | ((a - b).abs() <= atol + rtol * b.abs() + 10 * noise) | (torch.isnan(a) & torch.isnan(b))
            return bool(ok.all())

        if not agree(lambda r: r["final"].double(), 2e-3, 1e-5):
            return out.fail("refinement", f"{tag}: final losses {res[0]['final'].tolist()}, one process {one['final'].tolist()}")
        if kind == "aim":
            pairs = [("aim", lambda r: r["history"]["total_loss"], lambda r: r["history"]["total_loss"])]
            for key in ("intercept", "on_target", "blocking"):
                if not agree(lambda r: r[key].double(), 5e-3, 5e-3):
                    return out.fail("refinement", f"{tag}: {key} factors {res[0][key].tolist()}, one process {one[key].tolist()}")
        else:
            mine = [g for g in range(ng) if sum(job["counts"][g]) > 0]
            pairs = []
            for g in mine:
                r0 = per_group[g][0][0]
                k = [x for x in mapping[r0] if sum(job["counts"][x]) > 0].index(g)
                pairs.append((f"group {g}", (lambda r, r0=r0, k=k: r["history"][r0][k]["total_loss"]), (lambda r, g=g: r["history"][0][mine.index(g)]["total_loss"])))
        for name, dist, solo_h in pairs:
            get = lambda r, dist=dist, solo_h=solo_h: torch.tensor((dist if r is res[0] else solo_h)(r), dtype=torch.float64)  # noqa: E731
            first = lambda r: get(r)[:1]  # noqa: E731
            if not agree(first, 1e-3, 1e-6) or not agree(get, 2e-3, 1e-5):
                return out.fail("refinement", f"{tag}: losses of {name} {get(res[0]).tolist()}, one process {get(one).tolist()}")
        # the first gradients applied point the same way, heliostat by heliostat
        for p in run.procs:
            mine = [0] if kind == "aim" else [g for g in mapping[p.rank] if sum(job["counts"][g]) > 0]
            theirs = [0] if kind == "aim" else [g for g in range(ng) if sum(job["counts"][g]) > 0]
            for g, got in zip(mine, p.data["grads"]):
                want = ref.data["grads"][theirs.index(g)]
                for k, (a, b) in enumerate(zip(got, want)):
                    a, b = ((torch.zeros(1, 1) if x is None else x.double().flatten(1)) for x in (a, b))
                    if a.shape != b.shape:
                        return out.fail("refinement", f"{tag}: rank {p.rank} applies a gradient of shape {tuple(a.shape)}, one process {tuple(b.shape)}")
                    big = float(b.norm())
                    for h in range(len(b)):
                        x, y = a[h], b[h]
                        if float(y.norm()) < 1e-4 * big or float(y.norm()) < 1e-7:
                            continue
                        out.stats["gradients_compared"] += 1
                        x, y = x / max(float(x.norm()), 1e-30), y / float(y.norm())
                        if float((x - y).norm()) > 0.05:
                            return out.fail("refinement", f"{tag}: rank {p.rank} first moves heliostat {h} of group {k if kind == 'aim' else g} along {[round(float(v), 4) for v in x[:6]]}, one process along {[round(float(v), 4) for v in y[:6]]}")
        for g in range(ng):
            for key in keys:
                a, b, s = res[0]["state"][g][key], one["state"][g][key], start[g][key]
                if b.numel() == 0:
                    continue
                # per heliostat, relative to the distance travelled
                moved = (b - s).double().flatten(1).norm(dim=1)
                off = (a - b).double().flatten(1).norm(dim=1)
                noise = max([float((q["state"][g][key] - b).double().flatten(1).norm(dim=1).max()) for q in nudged] or [0.0])
                floor = {"motors": 2.0}.get(key, 1e-5) + 10 * noise
                frac = 0.1
                bad = (off > frac * moved + floor).nonzero().flatten().tolist()
                if bad:
                    h = bad[0]
                    return out.fail("refinement", f"{tag}: {key} of heliostat {h} in group {g} ends {float(off[h]):.3g} away from the one-process result, which moved by {float(moved[h]):.3g}")
        return out

    def shrink(self, case):
        yield from shrink_job(case)


CHECK = Check()
