"""C19: constraint penalties and regularisation weights follow the fluxes and surfaces of this run, on every process alike."""
import copy
import math
import random

import torch

from dst import recon, sim, world
from dst.kernel import kernel
from dst.runner import Out

from checks.c06 import gen_spec, shrink_job

from artist.optim import AimPointOptimizer, SurfaceReconstructor
from artist.optim import loss as L
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants as K
from artist.util import env as aenv

DEV = torch.device("cpu")
EPS = 1e-12


class Stop(RuntimeError):
    """The earlier run is interrupted."""


def note(kind, *rest):
    p = kernel().current()
    log = p.data.get("log")
    if log is not None:
        log.append((kind,) + rest)


def observed(base, steer):
    """A flux loss of the user that notes what it is given; steer: 'fit' the ground truth or 'drain' the light away."""
    class Observed(base):
        stop_at = None
        calls = 0

        def __call__(self, prediction, ground_truth, **kw):
            self.calls += 1
            if self.stop_at is not None and self.calls > self.stop_at:
                raise Stop("injected")
            if steer == "drain":
                value = prediction.flatten(1).sum(1) / 1e3
            else:
                value = super().__call__(prediction, ground_truth, **kw)
            note("loss", prediction.detach().double(), value.detach().double())
            return value
    return Observed()


_TRACE = HeliostatRayTracer.trace_rays
_PATCHED = False


def hook_tracer():
    """Notes which samples each ray tracing of a simulated rank served and how much of their light arrived."""
    global _PATCHED
    if _PATCHED:
        return
    _PATCHED = True

    def trace_rays(self, *args, **kwargs):
        res = _TRACE(self, *args, **kwargs)
        k = kernel()
        if k is not None and k.current().data.get("log") is not None:
            note("trace", self.heliostat_group, [int(i) for i in self.get_sampler_indices()], res[1].detach().double())
        return res
    HeliostatRayTracer.trace_rays = trace_rays


def close(a, b, atol, rtol=1e-3):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= atol + rtol * abs(b)


def bend(cp, base):
    """Mean squared Laplacian and mean squared size of the change of the control points, summed over facets."""
    d = cp.double() - base.double()
    n = torch.nn.functional.pad(d, (0, 0, 1, 1, 1, 1), mode="replicate")
    lap = 4 * d - n[:, :-2, 1:-1] - n[:, 2:, 1:-1] - n[:, 1:-1, :-2] - n[:, 1:-1, 2:]
    return (lap ** 2).mean(dim=(1, 2, 3)).sum(), (d ** 2).mean(dim=(1, 2, 3)).sum()


class Check:
    id = "C19"
    level = "exploration"
    rule = ("one run = one seeded aim point optimisation or surface reconstruction on one to four ranks, optionally after a finished or interrupted run of the same optimiser object, with losses that fit or drain the light; the recorded penalties, totals and final losses of every step "
            "are compared with an augmented Lagrangian model fed with the fluxes, intercept factors and control points of this and the earlier steps; non-trivial = at least two steps and a violated constraint or an active regulariser, distinct by schedule trace and job")
    measure = "hash of the (rank, yield point) sequence plus job kind, sizes and constraint settings"
    real = ["AimPointOptimizer, SurfaceReconstructor, regularisers, KL-divergence and pixel losses, ray tracer, environment set-up, torch optimizers, torch.distributed front end with autograd collectives"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)", "in some runs the user-supplied flux loss (total light)"]
    assumptions = ["penalties agree to 1e-3 relative, and to the rounding of single-precision sums multiplied by multiplier and penalty factor", "aim point optimisation applies constraints for the KL-divergence loss and losses derived from it, as documented"]
    tiers = {"quick": dict(cases=260, wall=60), "thorough": dict(cases=6000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = ("aim", "surface")[i % 2]
        spec = gen_spec(rng, kind)
        job = recon.gen_job(rng, kind, spec, epochs=(1, 7))
        job.update(tol=-1e9, es_delta=rng.choice([-1e9, -1e9, -1e9, 1e9]), ws=rng.choice([0.0, 0.5, 3.0]), wi=rng.choice([0.0, 0.5, 3.0]),
                   lr=rng.choice([1e-4, 1e-3, 5e-3]) if kind == "aim" else rng.choice([2e-5, 5e-4, 3e-3]), log_step=rng.choice([0, 1, 4]))
        if kind == "aim" and rng.random() < 0.5:      # beams about as wide as the target: light is won and lost
            spec.update(cov=rng.choice([3e-4, 1e-3, 2e-3]), rays=4)
            for g in spec["groups"]:
                g["n"] = rng.randint(2, 4)
            job["counts"] = [[1] * g["n"] for g in spec["groups"]]
        if kind == "surface":
            for k, c in enumerate(job["counts"]):
                s = rng.randint(2, 5)
                job["counts"][k] = [s if x else 0 for x in c]
        w = rng.randint(1, 4)
        con = dict(flux=rng.choice([0.0, 1.0, 7.0]), intercept=rng.choice([0.0, 1.0, 7.0]), local=rng.choice([0.0, 1.0, 3.0]), energy=rng.choice([0.0, 0.01, 0.1]),
                   density=10 ** rng.uniform(0, 6))
        return dict(spec=spec, job=job, ranks=w, con=con, base=rng.choice(["kl", "kl", "kl", "pixel"]), steer=rng.choice(["fit", "drain", "drain"]),
                    before=rng.choice([None, None, "done", "stopped"]), stop_at=rng.randint(1, 3), sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        hook_tracer()
        out = Out()
        spec, job, w, con, kind = case["spec"], case["job"], case["ranks"], case["con"], case["job"]["kind"]
        ng = len(spec["groups"])
        data = recon.measurements(spec, job) if kind != "aim" else None
        world.template(spec)
        conf = recon.config(job)
        conf[K.constraints] = {K.rho_flux_integral: con["flux"], K.rho_local_flux: con["local"], K.rho_intercept: con["intercept"], K.max_flux_density: con["density"],
                               K.energy_tolerance: con["energy"], K.weight_smoothness: job["ws"], K.weight_ideal_surface: job["wi"]}
        base = {"kl": L.KLDivergenceLoss, "pixel": L.PixelLoss}[case["base"]]

        def body(p):
            sc = world.fresh(spec)
            p.data["scenario"] = sc
            bres = torch.tensor(job["res"])
            p.data["on_step"] = lambda opt: note("step", id(opt), [q.detach().clone() for g in opt.param_groups for q in g["params"]])
            with aenv.setup_distributed_environment(number_of_heliostat_groups=ng, device=DEV) as d:
                if kind == "aim":
                    gt = torch.zeros(*reversed(job["res"]))
                    gt[2:-2, 2:-2] = 1.0
                    r = AimPointOptimizer(ddp_setup=d, scenario=sc, optimization_configuration=copy.deepcopy(conf), incident_ray_direction=torch.tensor(world.sun(random.Random(job["sun_seed"]))),
                                          target_area_index=job["target"], ground_truth=gt / gt.sum(), dni=job["dni"], bitmap_resolution=bres, device=DEV)
                    call = r.optimize
                else:
                    r = SurfaceReconstructor(ddp_setup=d, scenario=sc, data={K.data_parser: recon.GeneratedParser(data), K.heliostat_data_mapping: []}, optimization_configuration=copy.deepcopy(conf), dni=job["dni"],
                                             number_of_surface_points=torch.tensor([spec["points"], spec["points"]]), bitmap_resolution=bres, device=DEV)
                    call = r.reconstruct_surfaces
                if case["before"]:
                    first = observed(base, case["steer"])
                    if case["before"] == "stopped":
                        first.stop_at = case["stop_at"]
                    try:
                        call(loss_definition=first, device=DEV)
                    except Stop:
                        p.data["stopped"] = True
                p.data["log"] = []
                p.data["before"] = [g.nurbs_control_points.detach().clone() for g in sc.heliostat_field.heliostat_groups]
                res = call(loss_definition=observed(base, case["steer"]), device=DEV)
                return dict(final=res[0].detach().clone(), history=res[1], factors=[t.detach().clone() for t in res[2:]], mapping=d["groups_to_ranks_mapping"])

        run = sim.Job(w, case["sched"], max_steps=60000)
        run.run(body)
        run.account(out)
        out.sig = f"{kind}:{w}:{con}:{[g['n'] for g in spec['groups']]}:" + out.sig
        out.stats["kind:" + kind] += 1
        if case["before"]:
            out.stats["earlier_run:" + case["before"]] += 1
        if any(p.data.get("stopped") for p in run.procs):
            out.stats["fault:interrupted_run"] += 1
        tag = f"{kind} ({case['base']}, {case['steer']}) with {w} ranks, groups of {[g['n'] for g in spec['groups']]}"
        if case["before"]:
            tag += f", after a run that was {case['before']}"
        if run.outcomes() != ["ok"] * w:
            if any("does not require grad" in str(p.error) for p in run.procs):
                out.stats["no_light_left"] += 1      # all rays were steered away: nothing to differentiate
                return out
            return out.fail("raised", f"{tag}: {run.anomaly() or ''} {run.describe()}")
        return self.aim(case, run, tag, out) if kind == "aim" else self.surface(case, run, tag, out)

    # ------------------------------------------------------------------ aim points
    def aim(self, case, run, tag, out):
        spec, job, con = case["spec"], case["job"], case["con"]
        sizes = [g["n"] for g in spec["groups"]]
        starts = [sum(sizes[:k]) for k in range(len(sizes))]
        first = run.procs[0]
        n = sum(1 for e in first.data["log"] if e[0] == "loss")
        out.nontrivial = n > 1
        # intercept factors of all heliostats at every step, put together from what the ranks traced
        arrived = torch.zeros(n, sum(sizes), dtype=torch.float64)
        for p in run.procs:
            groups = p.data["scenario"].heliostat_field.heliostat_groups
            count = {}
            for e in p.data["log"]:
                if e[0] == "trace":
                    g = next(k for k, x in enumerate(groups) if x is e[1])
                    t = count[g] = count.get(g, -1) + 1
                    for row, idx in enumerate(e[2]):
                        arrived[t, starts[g] + idx] += float(e[3][row])
        tower = first.data["scenario"].solar_tower
        k = job["target"]
        if k < spec["planar"]:
            t = world.configs(spec)["target_area_list_planar_config"].target_area_list[k]
            area = float(t.plane_e) * float(t.plane_u)
        else:
            t = world.configs(spec)["target_area_list_cylindrical_config"].target_area_list[k - spec["planar"]]
            area = float(t.radius) * float(t.opening_angle) * float(t.height)
        limit = area / (job["res"][0] * job["res"][1]) * con["density"]
        del tower
        for p in run.procs:
            h = p.result["history"]
            seen = [e for e in p.data["log"] if e[0] == "loss"]
            keys = ("total_loss", "flux_loss", "local_flux_constraint", "intercept_constraint", "flux_integral_constraint", "flux_integral")
            kl = case["base"] == "kl"
            for key in keys:
                want = n if kl or key in ("total_loss", "flux_loss") else 0
                if len(h[key]) != want:
                    return out.fail("history", f"{tag}: rank {p.rank} made {n} steps and reports {len(h[key])} values of {key}")
            m_flux = m_int = m_loc = 0.0
            ref_sum, ref_int = seen[0][1].sum(), arrived[0]
            if kl and (float(ref_sum) <= 0 or float(ref_int.min()) < 1e-3):
                out.stats["dark_start"] += 1      # relative differences from nothing
                return out
            for e, (_, flux, value) in enumerate(seen):
                flux = flux.reshape(flux.shape[-2:])
                here = f"{tag}, target {k}: rank {p.rank}, step {e} of {n}"
                value = float(value.reshape(-1)[0])
                if not math.isfinite(value):
                    return out
                if not close(h["flux_loss"][e], value, 1e-6):
                    return out.fail("history", f"{here}: recorded flux loss {h['flux_loss'][e]}, the loss function said {value}")
                if not kl:
                    if not close(h["total_loss"][e], value, 1e-6):
                        return out.fail("penalty", f"{here}: total loss {h['total_loss'][e]}, flux loss {value} and no constraint")
                    continue
                d = (ref_sum - flux.sum()) / (ref_sum + EPS)
                di = (ref_int - arrived[e]) / (ref_int + EPS)
                v = (flux - limit) / (limit + EPS)
                dc, dic, vc = d.clamp(min=0), di.clamp(min=0), v.clamp(min=0)
                want = dict(flux_integral_constraint=(m_flux * dc + 0.5 * con["flux"] * dc ** 2, (m_flux + con["flux"] * abs(float(d))) * 3e-5),
                            intercept_constraint=((m_int * dic + 0.5 * con["intercept"] * dic ** 2).mean(), (m_int + con["intercept"] * float(di.abs().max())) * 3e-5),
                            local_flux_constraint=((m_loc * vc + 0.5 * con["local"] * vc ** 2).max(), (m_loc + con["local"] * float(v.abs().max())) * 3e-5))
                total = value
                for key, (x, atol) in want.items():
                    out.stats["penalties_checked"] += 1
                    out.stats["penalties_active"] += float(x) > 0
                    if not close(h[key][e], x, atol + 1e-7):
                        return out.fail("penalty", f"{here}: {key} is {h[key][e]:.6g}, violations {float(d):.4g} (total light), {float(di.max()):.4g} (intercept), {float(v.max()):.4g} (density) and multipliers {m_flux:.4g}, {m_int:.4g}, {m_loc:.4g} give {float(x):.6g}")
                    total += float(x)
                if not close(h["total_loss"][e], total, sum(a for _, a in want.values()) + 1e-6):
                    return out.fail("penalty", f"{here}: total loss {h['total_loss'][e]:.6g}, flux loss and penalties add up to {total:.6g}")
                if not close(h["flux_integral"][e], -100 * float(d), 1e-2):
                    return out.fail("history", f"{here}: total light changed by {-100 * float(d):.4g} %, recorded {h['flux_integral'][e]:.4g}")
                m_loc = max(0.0, m_loc + con["local"] * float(v.max()))
                m_int = max(0.0, m_int + con["intercept"] * float(di.mean()))
                m_flux = max(0.0, m_flux + con["flux"] * float(d))
            if not close(p.result["final"].reshape(-1)[0], h["total_loss"][-1], 1e-6):
                return out.fail("history", f"{tag}: rank {p.rank} returns the loss {float(p.result['final']):.6g} and records {h['total_loss'][-1]:.6g}")
            if not sim.close(p.result["factors"][0], arrived[-1], 1e-4, 1e-5):
                return out.fail("history", f"{tag}: rank {p.rank} returns intercept factors {p.result['factors'][0].tolist()}, the last ray tracing had {arrived[-1].tolist()}")
        return out

    # ------------------------------------------------------------------ surfaces
    def surface(self, case, run, tag, out):
        spec, job, con = case["spec"], case["job"], case["con"]
        ng = len(spec["groups"])
        start = [sum(g["n"] for g in spec["groups"][:k]) for k in range(ng)]
        mapping = run.procs[0].result["mapping"]
        for g in range(ng):
            active = [h for h, c in enumerate(job["counts"][g]) if c]
            if not active:
                continue
            n = job["counts"][g][active[0]]
            train = n - max(1, int(n * 0.25))
            steps = {}
            for p in run.procs:
                if g not in mapping[p.rank]:
                    continue
                mine = p.data["scenario"].heliostat_field.heliostat_groups[g]
                rows, served, rec = None, None, []
                for e in p.data["log"]:
                    if e[0] == "trace":
                        rows, served = e[2], e[1]
                    elif e[0] == "loss" and served is mine:
                        rec.append(dict(samples=rows, flux=e[1], loss=e[2]))
                    elif e[0] == "step" and served is mine and rec and "cp" not in rec[-1]:
                        rec[-1]["cp"] = e[2][0]
                steps[p.rank] = rec
            S = {len(r) for r in steps.values()}
            if len(S) != 1:
                return out.fail("steps", f"{tag}: the ranks sharing group {g} make {[len(r) for r in steps.values()]} steps")
            S = S.pop()
            lam = {h: 0.0 for h in active}
            ref, order = {}, {}
            for e in range(S):
                light, cons, fl, rel, smooth, ideal, slack = {}, {}, {}, {}, {}, {}, {}
                for r, rec in steps.items():
                    x = rec[e]
                    if len(x["samples"]) != len(x["flux"]) or x["samples"] != rec[0]["samples"]:
                        return out
                    order[r] = []
                    for row, idx in enumerate(x["samples"]):
                        h = active[idx // train]
                        if h not in order[r]:
                            order[r].append(h)
                        light.setdefault(h, {})[idx] = (float(x["flux"][row].sum()), float(x["loss"][row]))
                    for h in order[r]:
                        base = run.procs[r].data["before"][g][h]
                        smooth[h], ideal[h] = bend(x["cp"][h], base)
                for h, d in light.items():
                    if len(d) != train:
                        return out
                    if e == 0:
                        ref[h] = {i: v[0] for i, v in d.items()}
                    rel[h] = [(v[0] - ref[h][i]) / (ref[h][i] + EPS) for i, v in d.items()]
                    fl[h] = sum(v[1] for v in d.values()) / train
                    c = sum(max(0.0, -con["energy"] - x) for x in rel[h]) / train
                    cons[h] = lam[h] * c + 0.5 * con["flux"] * c * c
                    slack[h] = (lam[h] + con["flux"] * (c + 1e-4)) * 3e-5
                    out.stats["penalties_active"] += c > 0
                    lam[h] = max(0.0, lam[h] + con["flux"] * c)
                    if min(ref[h].values()) <= 0:
                        out.stats["dark_start"] += 1
                        return out
                if sorted(light) != active or not all(math.isfinite(v) for v in fl.values()):
                    return out
                mean = sum(fl.values()) / len(active)
                sm, im = (sum(float(v) for v in q.values()) / len(active) for q in (smooth, ideal))
                alpha = job["ws"] * mean / ((sm if job["ws"] else 0.0) + EPS)
                beta = job["wi"] * mean / ((im if job["wi"] else 0.0) + EPS)
                reg = {h: (alpha * float(smooth[h]) if job["ws"] else 0.0, beta * float(ideal[h]) if job["wi"] else 0.0) for h in active}
                total = {h: fl[h] + cons[h] + sum(reg[h]) for h in active}
                out.nontrivial = out.nontrivial or (e > 0 and (job["ws"] > 0 or job["wi"] > 0 or any(lam.values())))
                tiny = abs(mean) * 1e-4 * (job["ws"] + job["wi"]) + 1e-7
                for r in steps:
                    groups = [k for k in mapping[r] if any(job["counts"][k])]
                    hist = run.procs[r].result["history"][r][groups.index(g)]
                    here = f"{tag}, samples {job['counts']}: rank {r}, group {g}, step {e} of {S}"
                    L_ = order[r]
                    slack_sum = sum(slack.values())
                    checks = [("total_loss", sum(total.values()) / len(active), slack_sum + tiny)]
                    if L_:
                        avg = lambda f: sum(f(h) for h in L_) / len(L_)  # noqa: E731
                        checks += [("flux_loss", avg(lambda h: fl[h]), 1e-7), ("flux_integral_constraint", avg(lambda h: cons[h]), slack_sum + 1e-9),
                                   ("flux_integral", avg(lambda h: sum(rel[h]) / train), 2e-5), ("smoothness_regularizer", avg(lambda h: reg[h][0]), tiny), ("ideal_regularizer", avg(lambda h: reg[h][1]), tiny)]
                    for key, want, atol in checks:
                        if e < len(hist[key]):
                            out.stats["penalties_checked"] += 1
                            if not close(hist[key][e], want, atol):
                                return out.fail("penalty", f"{here}: {key} is {hist[key][e]:.6g}, fluxes and control points of this run give {want:.6g}")
                    if e == S - 1:
                        final = run.procs[r].result["final"]
                        for h in active:
                            if not close(final[start[g] + h], total[h], slack[h] + tiny):
                                return out.fail("penalty", f"{here}: the final loss of heliostat {h} is {float(final[start[g] + h]):.6g}, flux loss, penalty and regularisation add up to {total[h]:.6g}")
        return out

    def shrink(self, case):
        for c in shrink_job(case):
            yield c
        if case["before"]:
            yield dict(case, before=None)
        if case["steer"] != "fit":
            yield dict(case, steer="fit")


CHECK = Check()
