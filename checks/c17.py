"""C17: shading between heliostats does not depend on how the field is partitioned."""
import torch

from artist.util import env as aenv

from dst import sim, trace, world
from dst.runner import Out

DEV = torch.device("cpu")
MARGIN = 0.05          # of the edge of a mirror: mirrors are curved and canted, edges are soft


def split(spec, sizes):
    return dict(spec, groups=[{"act": spec["groups"][0]["act"], "n": n} for n in sizes])


def cut(xs, sizes):
    res, k = [], 0
    for n in sizes:
        res.append(list(xs[k:k + n]))
        k += n
    return res


class Check:
    id = "C17"
    level = "exploration"
    rule = ("one run = one seeded dense field traced with blocking as a single group in one process and again cut into heliostat groups over several ranks and batches, and one of its heliostats traced beside each other heliostat alone; "
            "non-trivial = some ray is blocked and the field is cut into at least two groups, distinct by schedule trace, cut and field")
    measure = "hash of schedule trace plus (field seed, cut, ranks, batch size)"
    real = ["HeliostatRayTracer with blocking, bounding-volume hierarchy, environment set-up"]
    stub = ["rendezvous store and gloo backend", "process start"]
    assumptions = ["active heliostats are aligned, the others lie flat, as ARTIST warns", "fields are ground-mounted in front of the tower"]
    tiers = {"quick": dict(cases=400, wall=60), "thorough": dict(cases=9000, wall=1200)}

    def gen(self, rng, i, tier):
        n = rng.choice([3, 4, 5, 6, 7, 8, 9, 11, 13])
        spec = world.default_spec(groups=[{"act": rng.choice(["linear", "ideal"]), "n": n}], seed=rng.randrange(40), rays=rng.randint(1, 3), points=rng.choice([2, 3]), cps=3, facets=4, flat=rng.random() < 0.3,
                                  planar=1, cyl=1, layout=rng.choice(["dense", "column"]), shuffle=rng.random() < 0.7, far=rng.random() < 0.15)
        plan = trace.gen_plan(rng, spec, blocking=True, res=[10, 10])
        mask = [1] * n if rng.random() < 0.6 else [int(rng.random() < 0.65) for _ in range(n)]
        if not any(mask):
            mask[rng.randrange(n)] = 1
        plan["masks"] = [mask]
        plan["targets"] = [[rng.randrange(2) for _ in range(sum(mask))]]
        plan["suns"] = [[plan["suns"][0][0]] * sum(mask)]
        sizes = []
        while sum(sizes) < n:
            sizes.append(rng.randint(1, n - sum(sizes)))
        w = rng.randint(1, 4)
        return dict(spec=spec, plan=plan, sizes=sizes, ranks=w, batch=rng.randint(1, n), pick=rng.choice([h for h in range(n) if mask[h]]), sched=sim.gen_sched(rng, w))

    def run(self, case):
        out = Out()
        spec, plan, w, sizes = case["spec"], case["plan"], case["ranks"], case["sizes"]
        n = sum(sizes)
        ref = sim.one_rank(lambda: trace.share(spec, plan, 0))
        if ref.outcome != "ok":
            return out.fail("raised", f"one process tracing a whole group: {type(ref.error).__name__}: {str(ref.error).split(chr(10))[0][:120]}")
        ref = ref.result
        cutspec = split(spec, sizes)
        masks = cut(plan["masks"][0], sizes)
        active = [sum(m) for m in masks]
        cutplan = dict(plan, masks=masks, targets=cut(plan["targets"][0], active), suns=cut(plan["suns"][0], active))
        # the sunshape sample of a heliostat depends on its row, so rows are compared through a fixed sunshape: with one ray
        # distribution per group the draws differ; the point of comparison is therefore the deterministic part below
        job = sim.Job(w, case["sched"])
        base = [sum(active[:g]) for g in range(len(sizes))]
        du, de = ref["tracer"].distortions_dataset.distortions_u, ref["tracer"].distortions_dataset.distortions_e

        def body(p):
            rows = {}
            with aenv.setup_distributed_environment(number_of_heliostat_groups=len(sizes), device=DEV) as d:
                sc = world.fresh(cutspec)
                for g in d["groups_to_ranks_mapping"][d["rank"]]:
                    if not active[g]:
                        continue
                    sun = sc.light_sources.light_source_list[0]
                    sun.get_distortions = lambda number_of_points, number_of_active_heliostats, random_seed=7, b=base[g], m=active[g]: (du[b:b + m].clone(), de[b:b + m].clone())
                    s = trace.share(cutspec, cutplan, g, d["heliostat_group_world_size"], d["heliostat_group_rank"], case["batch"], sc=sc, hook=job.k.point)
                    for row, j in enumerate(s["idx"]):
                        rows[base[g] + j] = (s["flux"][row], float(s["blocking"][row]), float(s["intercept"][row]))
            return rows

        job.run(body)
        job.account(out)
        out.sig = f"{spec['seed']}:{sizes}x{w}x{case['batch']}:" + out.sig
        out.nontrivial = len(sizes) > 1 and bool((ref["blocking"] < 1).any())
        out.stats["runs_with_blocked_rays"] += int(bool((ref["blocking"] < 1).any()))
        if job.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{w} ranks, groups {sizes}: {job.describe()}")
        who = [h for h, m in enumerate(plan["masks"][0]) if m]
        far_rows = {j for j, h in enumerate(who) if float(ref["group"].positions[h][0]) > 1000}   # single precision is coarse there
        for p in job.procs:
            for j, (flux, b, ic) in p.result.items():
                # rays at the soft edge of a blocker may fall on either side of the threshold of the factors, but hardly change the bitmap
                change = float((flux - ref["flux"][j]).abs().sum())
                energy = float(ref["flux"][j].sum())
                rays = 0.16 if change <= 1e-3 * energy else 1.01 / (du.shape[1] * du.shape[2])
                if abs(b - float(ref["blocking"][j])) > rays or abs(ic - float(ref["intercept"][j])) > rays or change > (4e-2 if j in far_rows else 4e-3) * energy + 1e-4:
                    return out.fail("shading", f"heliostat {who[j]}: unblocked fraction {b:.4f} and energy {float(flux.sum()):.5f} with the field cut into groups {sizes} over {w} ranks (batch {case['batch']}), "
                                    f"but {float(ref['blocking'][j]):.4f} and {float(ref['flux'][j].sum()):.5f} as one group")
        bad = self.geometry(case, out)
        return out.fail("geometry", bad) if bad else self.shades(case, ref, du, de, out)

    def geometry(self, case, out):
        """The rays of a point-like sun meet the mirrors of the other heliostats where straight lines meet rectangles (double precision)."""
        spec, plan = case["spec"], case["plan"]
        sc = world.fresh(spec)
        sc.light_sources.light_source_list[0].get_distortions = lambda number_of_points, number_of_active_heliostats, random_seed=7: (
            torch.zeros(number_of_active_heliostats, spec["rays"], number_of_points), torch.zeros(number_of_active_heliostats, spec["rays"], number_of_points))
        got = sim.one_rank(lambda: trace.share(spec, plan, 0, sc=sc))
        if got.outcome != "ok":
            return f"tracing the whole field without a sunshape: {got.error}"
        got, group = got.result, sc.heliostat_field.heliostat_groups[0]
        who = [h for h, m in enumerate(plan["masks"][0]) if m]
        base, pos = group.surface_points.detach()[:, :, :3].double(), group.positions.detach()[:, :3].double()
        mirror = base + pos[:, None]                        # flat on the ground unless aligned
        mirror[who] = group.active_surface_points.detach()[:, :, :3].double()
        lo, hi = base[:, :, :2].amin(1), base[:, :, :2].amax(1)

        def corner(e, n):
            want = torch.stack([e, n], 1)[:, None]
            return mirror[torch.arange(len(mirror)), torch.linalg.norm(base[:, :, :2] - want, dim=-1).argmin(1)]
        c0, u, v = corner(lo[:, 0], lo[:, 1]), corner(lo[:, 0], hi[:, 1]), corner(hi[:, 0], lo[:, 1])
        u, v = u - c0, v - c0
        normal = torch.linalg.cross(u, v)
        towers = sc.solar_tower.get_centers_of_target_areas(target_area_indices=torch.tensor(plan["targets"][0]), device=DEV)[:, :3].double()
        for j, h in enumerate(who):
            sun = torch.tensor(plan["suns"][0][j])[:3].double()
            sun = sun / torch.linalg.norm(sun)
            nrm = group.active_surface_normals.detach()[j][:, :3].double()
            d = sun - 2 * (nrm @ sun)[:, None] * nrm
            o = mirror[h]
            others = [b for b in range(len(mirror)) if b != h]
            den = (d[:, None] * normal[others]).sum(-1)
            t = ((c0[others] - o[:, None]) * normal[others]).sum(-1) / den
            x = o[:, None] + t[..., None] * d[:, None] - c0[others]
            uu, vv, uv = (u[others] ** 2).sum(-1), (v[others] ** 2).sum(-1), (u[others] * v[others]).sum(-1)
            xu, xv = (x * u[others]).sum(-1), (x * v[others]).sum(-1)
            det = uu * vv - uv * uv
            a, b = (xu * vv - xv * uv) / det, (xv * uu - xu * uv) / det
            inside = torch.minimum(torch.minimum(a, 1 - a), torch.minimum(b, 1 - b))
            room = torch.linalg.norm(towers[j] - pos[h])
            hit = ((inside > MARGIN) & (t > 0.1) & (t < 0.9 * room)).any(1)
            maybe = ((inside > -MARGIN) & (t > 0.02) | ~torch.isfinite(inside)).any(1)
            blocked = 1.0 - float(got["blocking"][j])
            out.stats["rays_hit"] += int(hit.sum())
            out.stats["rays_free"] += int((~maybe).sum())
            if blocked < float(hit.double().mean()) - 1e-3 or blocked > float(maybe.double().mean()) + 1e-3:
                return (f"heliostat {h} of {len(mirror)} loses {blocked:.3f} of its rays, but straight lines from its mirror meet the mirrors of the others "
                        f"for at least {float(hit.double().mean()):.3f} and at most {float(maybe.double().mean()):.3f} of them")
        return None

    def shades(self, case, ref, du, de, out):
        """A heliostat loses in the whole field at least what each other heliostat alone takes from it, and at most what all of them take."""
        spec, plan, a = case["spec"], case["plan"], case["pick"]
        n = len(plan["masks"][0])
        mask = plan["masks"][0]
        row = {h: j for j, h in enumerate(h for h, m in enumerate(mask) if m)}
        names = [x for g in world.heliostat_names(spec) for x in g]
        lost = {}
        for b in range(n):
            if b == a:
                continue
            sc = world.regroup(world.fresh(spec), spec, [[names[a], names[b]]])
            sun = sc.light_sources.light_source_list[0]
            sun.get_distortions = lambda number_of_points, number_of_active_heliostats, random_seed=7, rows=torch.tensor([row[x] for x in (a, b) if x in row]): (du[rows].clone(), de[rows].clone())
            two = dict(plan, masks=[[1, mask[b]]], targets=[[plan["targets"][0][row[x]] for x in (a, b) if x in row]], suns=[[plan["suns"][0][row[x]] for x in (a, b) if x in row]])
            got = sim.one_rank(lambda: trace.share(split(spec, [2]), two, 0, sc=sc))
            if got.outcome != "ok":
                return out.fail("raised", f"tracing heliostats {a} and {b} alone: {got.error}")
            lost[b] = 1.0 - float(got.result["blocking"][0])
        whole = 1.0 - float(ref["blocking"][row[a]])
        worst = max(lost, key=lost.get)
        out.stats["pairs_compared"] += len(lost)
        if whole < lost[worst] - 0.02 or whole > sum(lost.values()) + 0.02:
            return out.fail("shading", f"heliostat {a} of {n} loses {whole:.3f} of its rays to the other heliostats of the field, but heliostat {worst} alone takes {lost[worst]:.3f} and all of them, one at a time, take {sum(lost.values()):.3f}")
        return out

    def shrink(self, case):
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "ranks")
        n = sum(case["sizes"])
        if case["batch"] < n:
            yield dict(case, batch=n)
        if len(case["sizes"]) > 2:
            yield dict(case, sizes=[case["sizes"][0], n - case["sizes"][0]])


CHECK = Check()
