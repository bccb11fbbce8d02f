"""One rank's share of a ray-tracing job, driven through the public API."""
from __future__ import annotations

import random

import torch

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer

from . import world

DEV = torch.device("cpu")


def gen_plan(rng, spec, blocking, repeats=True, res=None):
    """What is traced: masks, targets, sun, tracer settings (all groups)."""
    masks, targets, suns = [], [], []
    nt = spec["planar"] + spec["cyl"]
    common = world.sun(rng)
    for g in spec["groups"]:
        n = g["n"]
        if blocking:
            m = [1] * n if rng.random() < 0.7 else [rng.randint(0, 1) for _ in range(n)]
        elif repeats:
            style = rng.random()
            k = rng.randint(1, 3)
            m = [k] * n if style < 0.3 else [rng.randint(0, 3) for _ in range(n)] if style < 0.8 else [rng.randint(0, 1) for _ in range(n)]
        else:
            m = [rng.randint(0, 1) for _ in range(n)]
        if sum(m) == 0:
            m[rng.randrange(n)] = 1
        masks.append(m)
        targets.append([rng.randrange(nt) for _ in range(sum(m))])
        suns.append([common if (blocking or rng.random() < 0.4) else world.sun(rng) for _ in range(sum(m))])
    return dict(masks=masks, targets=targets, suns=suns, blocking=blocking,
                seed=rng.randrange(1000), res=res or [rng.randint(6, 20), rng.randint(6, 20)],
                ext=rng.choice([0.0, 0.0, 0.1, 0.35]), refl=rng.choice([0.935, 0.935, 1.0, 0.6]),
                dni=rng.choice([None, None, 850.0]))


def named(sc, plan, order):
    """The plan of all groups as one list of (heliostat, target area, incident ray direction), rows of different heliostats in any order."""
    targets = [n for kind in sc.solar_tower.target_areas for n in kind.names]
    rows = {}
    for g, group in enumerate(sc.heliostat_field.heliostat_groups):
        todo = list(zip(plan["targets"][g], plan["suns"][g]))
        for name, m in zip(group.names, plan["masks"][g]):
            rows[name] = [todo.pop(0) for _ in range(m)]
    turns = [name for name, r in rows.items() for _ in r]
    random.Random(order).shuffle(turns)
    out = []
    for name in turns:
        t, s = rows[name].pop(0)
        out.append((name, targets[t], torch.tensor(s)))
    return out


def align(sc, plan, gi):
    g = sc.heliostat_field.heliostat_groups[gi]
    m = torch.tensor(plan["masks"][gi], dtype=torch.int32)
    t = torch.tensor(plan["targets"][gi], dtype=torch.int64)
    inc = torch.tensor(plan["suns"][gi]).reshape(-1, 4)
    if plan.get("named") is not None:
        how = dict(string_mapping=named(sc, plan, plan["named"])) if plan["named"] != "all" else dict(
            single_incident_ray_direction=inc[0], single_target_area_index=int(t[0]))
        m, t, inc = sc.index_mapping(heliostat_group=g, device=DEV, **how)
    g.activate_heliostats(active_heliostats_mask=m, device=DEV)
    g.align_surfaces_with_incident_ray_directions(
        aim_points=sc.solar_tower.get_centers_of_target_areas(target_area_indices=t, device=DEV),
        incident_ray_directions=inc, active_heliostats_mask=m, device=DEV)
    return g, m, t, inc


def tracer(sc, plan, gi, world_size=1, rank=0, batch=1000):
    return HeliostatRayTracer(scenario=sc, heliostat_group=sc.heliostat_field.heliostat_groups[gi], blocking_active=plan["blocking"],
                              world_size=world_size, rank=rank, batch_size=batch, random_seed=plan["seed"],
                              bitmap_resolution=torch.tensor(plan["res"]), dni=plan["dni"])


def share(spec, plan, gi, world_size=1, rank=0, batch=1000, sc=None, hook=None):
    """Trace this rank's share of group gi; returns indices, rows and per-target sums."""
    sc = sc if sc is not None else world.fresh(spec)
    order = [x for x in range(len(sc.heliostat_field.heliostat_groups)) if x != gi] + [gi] if plan["blocking"] else [gi]
    for x in order:
        g, m, t, inc = align(sc, plan, x)
    rt = tracer(sc, plan, gi, world_size, rank, batch)
    if hook:
        hook("aligned")
    flux, intercept, on_target, blocking = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=m, target_area_indices=t,
                                                         ray_extinction_factor=plan["ext"], mirror_reflectivity=plan["refl"], device=DEV)
    if hook:
        hook("traced")
    idx = rt.get_sampler_indices()
    return dict(idx=[int(i) for i in idx.tolist()], flux=flux, intercept=intercept, on_target=on_target, blocking=blocking, tracer=rt, targets=t, scenario=sc,
                ray_magnitude=float(rt.ray_magnitude), group=g)


def per_target(s):
    """The documented reduction of a rank's rows to one bitmap per target area."""
    idx = torch.tensor(s["idx"], dtype=torch.long)
    return s["tracer"].get_bitmaps_per_target(bitmaps_per_heliostat=s["flux"], target_area_indices=s["targets"][idx], device=DEV)
