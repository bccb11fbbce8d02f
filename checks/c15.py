"""C15: an optimisation only moves what it may move, at every step and under every partition."""
import torch

from dst import recon, sim, world
from dst.runner import Out

from artist.nurbs.surfaces import NURBSSurfaces  # noqa: E402  (artist.field must be imported first)
from artist.nurbs.utils import create_nurbs_evaluation_grid  # noqa: E402
from artist.util import indices  # noqa: E402

from checks.c06 import KINDS, gen_spec, shrink_job

ALL = ("rot", "trans", "act", "nonopt", "cps", "points", "normals", "pos")
MAY = {"kin_flux": {"rot"}, "kin_align": {"rot"}, "surface": {"cps", "points", "normals"}, "aim": set()}


class Check:
    id = "C15"
    level = "exploration"
    rule = ("one run = one seeded optimisation on one to four ranks (idle ranks, groups and heliostats without data, short and long runs, all schedules of message and rank delays) inspected after every optimizer step of every rank "
            "and at the end; non-trivial = at least one optimizer step, distinct by schedule trace and job")
    measure = "hash of the (rank, yield point) sequence plus job kind and sizes"
    real = ["KinematicsReconstructor, SurfaceReconstructor, AimPointOptimizer, HeliostatGroup, ray tracer, environment set-up, torch optimizers, torch.distributed front end"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)"]
    assumptions = ["what an optimisation may move is what its documentation names: rotation deviations, control points (outer ones only out of plane), motor positions"]
    tiers = {"quick": dict(cases=280, wall=60), "thorough": dict(cases=6000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        spec = gen_spec(rng, kind)
        spec["facets"] = rng.choice([1, 1, 2])
        spec["cpv"] = rng.choice([4, 4, 5, 6])
        spec["flat"] = kind == "surface" and rng.random() < 0.7
        job = recon.gen_job(rng, kind, spec)
        job["lr"] = rng.choice([1e-4, 5e-4, 5e-3 if kind != "aim" else 0.3])
        job["perfect"] = kind != "aim" and rng.random() < 0.3   # measurements that leave nothing to correct
        w = rng.randint(1, 4)
        return dict(spec=spec, job=job, ranks=w, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w = case["spec"], case["job"], case["ranks"]
        kind = job["kind"]
        ng = len(spec["groups"])
        if kind != "aim":
            (recon.twin if job.get("perfect") else recon.measurements)(spec, job)
        start = recon.state(world.fresh(spec))
        around = recon.surroundings(world.fresh(spec))
        limits = [(s["nonopt"][:, indices.actuator_min_motor_position], s["nonopt"][:, indices.actuator_max_motor_position]) for s in start]
        active = [[c > 0 for c in cs] if kind != "aim" else [True] * len(cs) for cs in job["counts"]]

        known = []
        cache = {}

        def recanted(g):
            """Surfaces evaluated from the initial control points with canting and facet translation applied on top."""
            if g not in cache:
                hg = world.fresh(spec).heliostat_field.heliostat_groups[g]
                n = spec["points"]
                grid = create_nurbs_evaluation_grid(number_of_evaluation_points=torch.tensor([n, n]), device=recon.DEV)
                grid = grid[None, None].expand(hg.number_of_heliostats, hg.number_of_facets_per_heliostat, -1, -1)
                nurbs = NURBSSurfaces(degrees=hg.nurbs_degrees, control_points=start[g]["cps"], device=recon.DEV)
                pts, nrm = nurbs.calculate_surface_points_and_normals(evaluation_points=grid, canting=hg.canting, facet_translations=hg.facet_translations, device=recon.DEV)
                cache[g] = dict(points=pts.reshape(hg.surface_points.shape), normals=nrm.reshape(hg.surface_normals.shape))
            return cache[g]

        def wrong(state):
            """First thing that moved although it must not, or left its bounds."""
            for g in range(ng):
                s, b = state[g], start[g]
                for key in ALL:
                    if s[key].shape != b[key].shape:
                        return f"{key} of group {g} changed its shape from {tuple(b[key].shape)} to {tuple(s[key].shape)}"
                    if key not in MAY[kind]:
                        if not torch.equal(s[key], b[key]):
                            return f"{key} of group {g} changed"
                        continue
                    if not torch.isfinite(s[key]).all():
                        return f"{key} of group {g} is not finite"
                    for h, on in enumerate(active[g]):
                        if not on and key in ("points", "normals") and not spec.get("flat") and sim.close(s[key][h], recanted(g)[key][h], rtol=0, atol=1e-5):
                            if not sim.close(s[key][h], b[key][h], rtol=0, atol=1e-6):
                                known.append(f"{key} of heliostat {h} in group {g}, which has no measurements, moved by {float((s[key][h] - b[key][h]).abs().max()):.3g}: "
                                             "its fitted surface is canted and translated a second time")
                            continue
                        if not on and not sim.close(s[key][h], b[key][h], rtol=0, atol=0 if key in ("rot", "cps") else 1e-6):
                            return f"{key} of heliostat {h} in group {g}, which has no measurements, moved by {float((s[key][h] - b[key][h]).abs().max()):.3g}"
                if kind == "surface":
                    d = (s["cps"] - b["cps"])[..., :2].abs()
                    edge = torch.ones(d.shape[2:4], dtype=torch.bool)
                    edge[1:-1, 1:-1] = False
                    if float(d[:, :, edge].max()) > 0:
                        return f"outer control points of group {g} moved in the plane by {float(d[:, :, edge].max()):.3g}"
                if kind == "aim":
                    lo, hi = limits[g]
                    if spec["groups"][g]["act"] != "linear":   # the limits are motor steps; ideal actuators work in angles
                        continue
                    m = s["motors"]
                    if not torch.isfinite(m).all():
                        return f"motor positions of group {g} are not finite"
                    slack = 1e-5 * (hi - lo)
                    if bool((m < lo - slack - 1.0).any()) or bool((m > hi + slack + 1.0).any()):
                        return f"motor positions {m.tolist()} of group {g} leave their limits {lo.tolist()}..{hi.tolist()}"
            return None

        run = sim.Job(w, case["sched"], max_steps=40000)
        inner = recon.rank_body(spec, job)
        bad = []

        def body(p):
            def on_step(opt):
                sc = p.data.get("scenario")
                if sc is not None and not bad:
                    st = recon.state(sc)
                    if kind == "surface":   # working copies of the surfaces are refreshed at the end
                        for g in range(ng):
                            st[g]["points"], st[g]["normals"] = start[g]["points"], start[g]["normals"]
                    x = wrong(st)
                    if x:
                        bad.append(f"rank {p.rank}, before step {p.data['opt_steps']}: {x}")
            p.data["on_step"] = on_step
            return inner(p)

        run.run(body)
        run.account(out)
        steps = sum(p.data.get("opt_steps", 0) for p in run.procs)
        out.sig = f"{kind}:{w}:{[g['n'] for g in spec['groups']]}:" + out.sig
        out.nontrivial = steps > 0
        out.stats["kind:" + kind] += 1
        out.stats["optimizer_steps"] += steps
        tag = f"{kind} with {w} ranks, samples {job['counts'] if kind != 'aim' else 'n/a'}"
        if bad:
            return out.fail("moved", f"{tag}: {bad[0]}")
        if run.outcomes() != ["ok"] * w:
            if kind == "aim" and any("does not require grad" in str(p.error) for p in run.procs):
                out.stats["off_target"] += 1   # every ray was steered off the target: nothing left to differentiate
                return out
            return out.fail("raised", f"{tag}: {run.anomaly() or ''} {run.describe()}")
        for p in run.procs:
            r = p.result
            x = wrong(r["state"])
            if x:
                return out.fail("moved", f"{tag}: rank {p.rank}, at the end: {x}")
            moved = recon.differing(around, r["around"])
            if moved:
                return out.fail("moved", f"{tag}: rank {p.rank}, at the end: {moved} changed")
            if kind == "aim":
                n = sum(len(a) for a in active)
                for key in ("intercept", "on_target", "blocking"):
                    v = r[key]
                    if v.numel() != n or float(v.min()) < -1e-4 or float(v.max()) > 1 + 1e-4:
                        return out.fail("result", f"{tag}: rank {p.rank}: {key} factors {v.tolist()} for {n} heliostats")
                continue
            flags = [on for a in active for on in a]
            if r["final"].shape != (len(flags),):
                return out.fail("result", f"{tag}: rank {p.rank}: final losses of shape {tuple(r['final'].shape)} for {len(flags)} heliostats")
            for h, on in enumerate(flags):
                v = float(r["final"][h])
                if on and not (v == v and abs(v) != float("inf")):
                    return out.fail("result", f"{tag}: rank {p.rank}: heliostat {h} has measurements but its final loss is {v}")
                if not on and v != float("inf"):
                    return out.fail("result", f"{tag}: rank {p.rank}: heliostat {h} has no measurements but its final loss is {v}")
            # something with measurements must actually have been optimised
            for g in range(ng):
                key = {"surface": "cps"}.get(kind, "rot")
                for h, on in enumerate(active[g]):
                    if on and torch.equal(r["state"][g][key][h], start[g][key][h]):
                        out.stats["unmoved_active"] += 1
        if known:
            return out.fail("moved", f"{tag}: {known[0]}", finding="fitted-surface-canted-twice")
        return out

    def shrink(self, case):
        yield from shrink_job(case)


CHECK = Check()
