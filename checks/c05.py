"""C05: light is accounted for on every process: none is gained, none disappears between mirror and target."""
import math
import random

import torch

from dst import sim, trace, world
from dst.runner import Out

from artist.util import env as aenv

DEV = torch.device("cpu")


def centre_ray(sc, group, h, target, aim=None):
    """Where and how the central ray of a heliostat aimed at a point (default: the target's centre) meets the target (double precision geometry)."""
    kind_planar = sc.solar_tower.target_areas[0]
    n_planar = len(kind_planar.names)
    pos = group.positions[h][:3].double()
    centre = sc.solar_tower.get_centers_of_target_areas(target_area_indices=torch.tensor([target]), device=DEV)[0][:3].double()
    aim = centre if aim is None else aim.double()
    d = (aim - pos) / torch.linalg.norm(aim - pos)
    if target < n_planar:
        nrm = kind_planar.normals[target][:3].double()
        cos = float(-(d @ nrm))
        if cos < 0.05:
            return dict(planar=True, hit=False, margin=-math.inf, cos=cos, dist=0.0)
        t = float((centre - pos) @ nrm) / -cos
        q = pos + t * d - centre
        w, hgt = (float(x) for x in kind_planar.dimensions[target])
        # seen from the field: east is on the left, up is on top
        return dict(planar=True, hit=True, cos=cos, dist=t, margin=min(w / 2 - abs(float(q[0])), hgt / 2 - abs(float(q[2]))), at=(0.5 - float(q[0]) / w, 0.5 - float(q[2]) / hgt), size=(w, hgt))
    cy = sc.solar_tower.target_areas[1]
    k = target - n_planar
    axis, nrm, c = cy.axes[k][:3].double(), cy.normals[k][:3].double(), cy.centers[k][:3].double()
    r, height, opening = float(cy.radii[k]), float(cy.heights[k]), float(cy.opening_angles[k])
    # nearest intersection with the infinite cylinder
    o = pos - c
    op, dp = o - (o @ axis) * axis, d - (d @ axis) * axis
    a, b, cc = float(dp @ dp), 2 * float(op @ dp), float(op @ op) - r * r
    disc = b * b - 4 * a * cc
    if disc <= 0:   # passes the cylinder at some distance
        flat = dp / torch.linalg.norm(dp)
        return dict(planar=False, hit=False, margin=0.0, cos=1.0, dist=float(-(op @ flat)), across=r - float(torch.linalg.norm(op - (op @ flat) * flat)))
    t = (-b - math.sqrt(disc)) / (2 * a)
    if t <= 0:
        return dict(planar=False, hit=False, margin=0.0, cos=0.0, dist=0.0)
    p = o + t * d
    radial = p - (p @ axis) * axis
    radial = radial / torch.linalg.norm(radial)
    side = torch.linalg.cross(axis, nrm)
    angle = math.atan2(float(radial @ side), float(radial @ nrm))
    inside = (lambda x: (opening / 2 - abs(x)) * r) if opening < 2 * math.pi - 1e-3 else (lambda x: 2 * math.pi * r)   # how far inside the arc, along the surface
    across, along = inside(angle), height / 2 - abs(float(p @ axis))
    # a beam of some width meets the cylinder beside its centre: where its edges go
    beam = dp / torch.linalg.norm(dp)
    sideways = torch.linalg.cross(axis, beam)
    off = float(op @ sideways)

    def edges(reach):
        if abs(off) + reach >= 0.97 * r:
            return -1.0
        ends = [(off + k * reach) * sideways - math.sqrt(r * r - (off + k * reach) ** 2) * beam for k in (-1, 1)]
        return min(inside(math.atan2(float(q @ side), float(q @ nrm))) for q in ends)
    return dict(planar=False, hit=across > 0 and along > 0, margin=min(across, along), across=across, along=along, cos=float(-(d @ radial)), dist=t, edges=edges,
                at=(0.5 + angle / opening, 0.5 - float(p @ axis) / height), size=(r * opening, height))


class Check:
    id = "C05"
    level = "exploration"
    rule = ("one run = one seeded field traced by one to five ranks in batches, with and without blocking, weaker mirrors, extinction and irradiance, with aim points beside the centre and onto targets that are not aimed at; every rank's bitmaps and factors are balanced "
            "against the rays it sent out; non-trivial = several ranks or batches, or blocking")
    measure = "hash of schedule trace plus (groups, masks, ranks, batch size, blocking)"
    real = ["environment set-up, HeliostatRayTracer with and without blocking, ray-target intersections, splatting, samplers, DataLoader, torch.distributed front end"]
    stub = ["rendezvous store and gloo backend", "process start"]
    assumptions = ["planar targets are upright and face the field along north or south, as the bitmap axes require", "rays within the outermost pixel of a target may be lost to the bitmap"]
    tiers = {"quick": dict(cases=260, wall=60), "thorough": dict(cases=9000, wall=1200)}

    def gen(self, rng, i, tier):
        ng = rng.choice([1, 1, 2])
        blocking = rng.random() < 0.4
        groups = [{"act": rng.choice(["linear", "ideal"]), "n": rng.randint(1, 4)} for _ in range(ng)]
        spec = world.default_spec(groups=groups, seed=rng.randrange(12), rays=rng.randint(1, 4), points=rng.choice([2, 3]) if blocking else rng.choice([3, 4, 6]), cps=4, planar=rng.randint(0, 2), cyl=1, facets=4 if blocking else rng.choice([1, 1, 2, 4]),
                                  layout=rng.choice(["dense", "column"]) if blocking else "spread", flat=rng.random() < 0.4, turn=rng.choice([0.0, 0.0, round(rng.uniform(-0.9, 0.9), 3)]))
        if spec["planar"] == 0 or rng.random() < 0.3:
            spec["cyl"] = rng.choice([1, 2])
        if rng.random() < 0.3:   # upright receivers that reach far around, seen from any side
            spec.update(opening=rng.choice([2.2, 4.0, 5.5, 6.283185, 6.283185]), turn=round(rng.choice([-1, 1]) * rng.choice([rng.uniform(0, math.pi), rng.uniform(1.8, math.pi)]), 3))
        plan = trace.gen_plan(rng, spec, blocking=blocking, res=[rng.choice([12, 24, 40]), rng.choice([12, 24, 33])])
        w = rng.randint(1, 5)
        return dict(spec=spec, plan=plan, ranks=w, batch=rng.randint(1, 6), sched=sim.gen_sched(rng, w), ext2=rng.choice([0.0, 0.25, 0.9, 1.0]), refl2=rng.choice([0.0, 0.5, 1.0]), away=rng.random() < 0.4, dni2=rng.choice([400.0, 1000.0]))

    def run(self, case):
        out = Out()
        spec, plan, w = case["spec"], case["plan"], case["ranks"]
        world.template(spec)
        ng = len(spec["groups"])
        nt = spec["planar"] + spec["cyl"]
        job = sim.Job(w, case["sched"])
        variants = {"base": {}, "weaker": dict(ext=case["ext2"], refl=case["refl2"]), "brighter": dict(dni=case["dni2"])}
        if plan["blocking"]:
            variants["free"] = dict(blocking=False)

        def elsewhere(s, g):
            """The rays of the aligned heliostats balanced on a target they are not aimed at."""
            m = torch.tensor(plan["masks"][g], dtype=torch.int32)
            other = torch.tensor([(t + 1) % nt for t in plan["targets"][g]], dtype=torch.long)
            rt = s["tracer"]
            f, ic, ot, bl = rt.trace_rays(incident_ray_directions=torch.tensor(plan["suns"][g]), active_heliostats_mask=m, target_area_indices=other, ray_extinction_factor=plan["ext"], mirror_reflectivity=plan["refl"], device=DEV)
            return dict(flux=f, intercept=ic, on_target=ot, blocking=bl, idx=s["idx"], ray_magnitude=float(rt.ray_magnitude))

        def aims(sc, g):
            """Aim points beside the centres of the target areas."""
            rng = random.Random(f"aside:{case['sched']['seed']}:{g}")
            t = torch.tensor(plan["targets"][g], dtype=torch.long)
            off = [[rng.uniform(-2.2, 2.2) if rng.random() < 0.7 else rng.choice([-1, 1]) * rng.uniform(5.5, 10.0), 0.0, rng.uniform(-2.0, 2.0), 0.0] for _ in range(len(t))]
            return sc.solar_tower.get_centers_of_target_areas(target_area_indices=t, device=DEV) + torch.tensor(off).reshape(-1, 4), t

        def aside(g, size, rank):
            """The rays of heliostats that aim beside the centre of their target."""
            sc = world.fresh(spec)
            group = sc.heliostat_field.heliostat_groups[g]
            m = torch.tensor(plan["masks"][g], dtype=torch.int32)
            aim, t = aims(sc, g)
            inc = torch.tensor(plan["suns"][g]).reshape(-1, 4)
            group.activate_heliostats(active_heliostats_mask=m, device=DEV)
            group.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=inc, active_heliostats_mask=m, device=DEV)
            rt = trace.tracer(sc, {**plan, "blocking": False}, g, size, rank, case["batch"])
            f, ic, ot, bl = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=m, target_area_indices=t, ray_extinction_factor=plan["ext"], mirror_reflectivity=plan["refl"], device=DEV)
            return dict(flux=f, intercept=ic, on_target=ot, blocking=bl, idx=[int(i) for i in rt.get_sampler_indices().tolist()], ray_magnitude=float(rt.ray_magnitude))

        def behind(g):
            """Flux on a planar target that faces the other way, from heliostats behind it whose rays travel away from it."""
            sc = world.fresh(spec)
            planar = sc.solar_tower.target_areas[0]
            planar.normals = -planar.normals
            group = sc.heliostat_field.heliostat_groups[g]
            m = torch.tensor(plan["masks"][g], dtype=torch.int32)
            t = torch.tensor([x % spec["planar"] for x in plan["targets"][g]], dtype=torch.long)
            inc = torch.tensor(plan["suns"][g]).reshape(-1, 4)
            aim = 2 * group.positions.repeat_interleave(m, dim=0) - sc.solar_tower.get_centers_of_target_areas(target_area_indices=t, device=DEV)
            group.activate_heliostats(active_heliostats_mask=m, device=DEV)
            group.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=inc, active_heliostats_mask=m, device=DEV)
            f, ic, ot, _ = trace.tracer(sc, {**plan, "blocking": False}, g).trace_rays(incident_ray_directions=inc, active_heliostats_mask=m, target_area_indices=t, device=DEV)
            ahead = (torch.sum(group.preferred_reflection_directions[..., :3] * planar.normals[t][:, None, None, :3], dim=-1) < 0).any()
            return dict(flux=float(f.abs().sum()), rays=float(ot.max()) if len(ot) else 0.0, tried=bool(ahead))

        def body(p):
            with aenv.setup_distributed_environment(number_of_heliostat_groups=ng, device=DEV) as d:
                mine = {}
                total = torch.zeros(ng, dtype=torch.float64)
                for g in d["groups_to_ranks_mapping"][d["rank"]]:
                    got = {}
                    for name, change in variants.items():
                        s = trace.share(spec, {**plan, **change}, g, d["heliostat_group_world_size"], d["heliostat_group_rank"], case["batch"], sc=world.fresh(spec), hook=job.k.point)
                        got[name] = {k: s[k] for k in ("flux", "intercept", "on_target", "blocking", "idx", "ray_magnitude")}
                        if name == "base":
                            held = s
                    if case["away"] and nt > 1 and sum(plan["masks"][g]):
                        got["away"] = elsewhere(held, g)
                    if sum(plan["masks"][g]):
                        got["aside"] = aside(g, d["heliostat_group_world_size"], d["heliostat_group_rank"])
                    if case["away"] and spec["planar"] and d["heliostat_group_rank"] == 0:
                        got["behind"] = behind(g)
                    mine[g] = got
                    total[g] += got["base"]["flux"].double().sum()
                if d["is_distributed"]:
                    torch.distributed.all_reduce(total, op=torch.distributed.ReduceOp.SUM)
                return mine, total

        job.run(body)
        job.account(out)
        out.sig = f"{plan['masks']}x{w}x{case['batch']}x{plan['blocking']}:" + out.sig
        out.nontrivial = w > 1 or plan["blocking"] or case["batch"] < max(sum(m) for m in plan["masks"])
        if job.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{w} ranks: {job.describe()} {job.anomaly() or ''}")
        rays = spec["rays"] * spec["facets"] * spec["points"] ** 2
        sc = world.fresh(spec)
        sent = [0.0] * ng
        for p in job.procs:
            mine, total = p.result
            for g, got in mine.items():
                group = sc.heliostat_field.heliostat_groups[g]
                where = [h for h, m in enumerate(plan["masks"][g]) for _ in range(m)]
                back = got.pop("behind", None)
                if back:
                    out.stats["away_from_target"] += back["tried"]
                    if back["flux"] > 1e-6 or back["rays"] > 1e-6:
                        return out.fail("balance", f"rank {p.rank} of {w}, group {g}: {back['flux']:.5g} arrives on planar targets from rays that travel away from them")
                for name, s in got.items():
                    pl = {**plan, **variants.get(name, {})}
                    if name == "aside":
                        pl["blocking"] = False
                    who = f"rank {p.rank} of {w}, group {g} ({name})"
                    pointed = aims(sc, g)[0] if name == "aside" else sc.solar_tower.get_centers_of_target_areas(target_area_indices=torch.tensor(plan["targets"][g], dtype=torch.long), device=DEV)
                    bad = self.balance(s, pl, rays, plan["targets"][g], pointed, sc, group, where, name, spec, out)
                    if bad:
                        return out.fail("balance", f"{who}: {bad}")
                b = got["base"]
                sent[g] += float(b["flux"].double().sum())
                scale = [("weaker", (1 - case["ext2"]) * case["refl2"], (1 - plan["ext"]) * plan["refl"]), ("brighter", got["brighter"]["ray_magnitude"], b["ray_magnitude"])]
                for name, num, den in scale:
                    if not sim.flux_close(got[name]["flux"] * den, b["flux"] * num, 1e-3):
                        return out.fail("linear", f"rank {p.rank}, group {g}: bitmaps are not proportional to {'irradiance' if name == 'brighter' else 'reflectivity and transmission'}")
                if plan["dni"] and not sim.close(got["brighter"]["ray_magnitude"] / case["dni2"], b["ray_magnitude"] / plan["dni"], 1e-4):
                    return out.fail("linear", f"rank {p.rank}, group {g}: power per ray is not proportional to the irradiance")
                if "free" in got:
                    more = (b["flux"] - got["free"]["flux"]).amax() if b["flux"].numel() else torch.tensor(0.0)
                    if float(more) > 1e-4 * float(got["free"]["flux"].abs().max() if b["flux"].numel() else 1.0) + 1e-6:
                        return out.fail("gain", f"rank {p.rank}, group {g}: blocking adds {float(more):.4g} to a pixel")
                    if not sim.close(got["free"]["on_target"], b["on_target"], 1e-5):
                        return out.fail("gain", f"rank {p.rank}, group {g}: the fraction of rays towards the target changes with blocking")
        for p in job.procs:
            for g in range(ng):
                if abs(float(p.result[1][g]) - sent[g]) > 1e-3 * abs(sent[g]) + 1e-4:
                    return out.fail("conserve", f"rank {p.rank}: group {g} delivers {float(p.result[1][g]):.5g} in total, its processes traced {sent[g]:.5g}")
        return out

    def balance(self, s, pl, rays, targets, pointed, sc, group, where, name, spec, out):
        power = s["ray_magnitude"] * rays * pl["refl"] * (1 - pl["ext"])
        nt = spec["planar"] + spec["cyl"]
        for row, j in enumerate(s["idx"]):
            t = targets[j] if name != "away" else (targets[j] + 1) % nt
            f, ic, ot, bl = s["flux"][row].double(), float(s["intercept"][row]), float(s["on_target"][row]), float(s["blocking"][row])
            if not torch.isfinite(f).all() or not all(math.isfinite(x) for x in (ic, ot, bl)):
                return f"sample {j}: bitmap or factors are not finite"
            if float(f.min()) < -1e-5 * max(1.0, s["ray_magnitude"]):
                return f"sample {j}: negative flux {float(f.min()):.4g}"
            if not all(-1e-5 <= x <= 1 + 1e-5 for x in (ic, ot, bl)):
                return f"sample {j}: factors outside of [0, 1]: intercept {ic:.4f}, on target {ot:.4f}, unblocked {bl:.4f}"
            if ic > ot + 1e-5:
                return f"sample {j}: more rays arrive ({ic:.4f}) than are directed onto the target ({ot:.4f})"
            if not pl["blocking"] and bl < 1 - 1e-5:
                return f"sample {j}: {1 - bl:.4f} of the rays are blocked although blocking is off"
            if not pl["blocking"] and power > 0 and abs(ic - ot) > 1e-5:
                return f"sample {j}: {ot - ic:.4f} of the rays are lost without blocking"
            if power == 0 and float(f.abs().sum()) > 1e-6:
                return f"sample {j}: flux although nothing is reflected or transmitted"
            total = float(f.sum())
            if total > power * ot * (1 + 1e-3) + 1e-5:
                return f"sample {j}: {total:.5g} arrives, more than the {power * ot:.5g} sent onto the target"
            ray = centre_ray(sc, group, where[j], t, pointed[j][:3])
            reach = 0.5 * (3.4 if spec["facets"] > 1 else 1.7) + 0.01 * ray["dist"]
            if ray["dist"] >= 200:
                continue
            if ray["planar"]:
                # a beam that meets the plane at an angle is wider there
                wide = reach / max(ray["cos"], 0.05)
                within, beside = ray["margin"] > wide + 0.3, ray["hit"] and ray["cos"] > 0.2 and ray["margin"] < -1.8 * wide
                if within and not pl["blocking"] and abs(total - power * ray["cos"]) > 0.05 * power:
                    return f"sample {j}: {total:.5g} arrives of {power * ray['cos']:.5g} that the beam carries onto the target"
                out.stats["planar_balances"] += within
            else:
                if ray["hit"] and total > power * ot * min(1.0, math.cos(max(0.0, math.acos(max(-1.0, min(1.0, ray["cos"]))) - 0.6))) * 1.02 + 1e-5:
                    return f"sample {j}: {total:.5g} arrives, more than the beam carries onto the cylinder"
                within = ray["hit"] and ray["margin"] > 1.4 * reach and ray["edges"](1.1 * reach) > 0.1 and ray["cos"] > 0.5
                beside = not ray["hit"] and ray["dist"] and ray["across"] < -1.8 * reach and ray["cos"] > 0.5
                out.stats["cylinder_balances"] += within
            if within and ot < 1 - 1e-6:
                return f"sample {j}: {1 - ot:.4f} of the rays miss target {t} although the beam is well within it"
            if beside and ot > 1e-6:
                return f"sample {j}: {ot:.4f} of the rays hit target {t} although the beam passes beside it"
            out.stats["beside_target"] += bool(beside)
            if within and not pl["blocking"] and total > 0 and abs(ray["at"][0] - 0.5) * ray["size"][0] + 1.5 * reach < ray["size"][0] / 2:
                # where the light is in the bitmap: its centre of mass is where the beam meets the target
                height, width = f.shape
                for axis, n, at, size in ((f.sum(0), width, ray["at"][0], ray["size"][0]), (f.sum(1), height, ray["at"][1], ray["size"][1])):
                    seen = float((axis * torch.arange(n)).sum()) / total
                    off = abs(seen - at * (n - 1)) * size / (n - 1)
                    out.stats["positions"] += 1
                    if off > 0.35:
                        return f"sample {j}: the light on target {t} is centred {off:.2f} m away from where the beam meets it"
        return None

    def shrink(self, case):
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "ranks")
        if case["batch"] < 50:
            yield dict(case, batch=50)
        if case["plan"]["blocking"]:
            yield dict(case, plan=dict(case["plan"], blocking=False))
        if case["away"]:
            yield dict(case, away=False)


CHECK = Check()
