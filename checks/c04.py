"""C04: the combined flux of a distributed, batched run equals the single-process result."""
import torch

from artist.util import env as aenv

from dst import sim, trace, world
from dst.runner import Out

DEV = torch.device("cpu")


class Check:
    id = "C04"
    level = "exploration"
    rule = ("one run = one seeded job in which all ranks trace every heliostat group they are assigned (nested and non-nested), reduce the bitmaps per target "
            "with the real all_reduce over the simulated network and compare with one process tracing everything unbatched; "
            "non-trivial = several ranks or batches, distinct by schedule trace and partition")
    measure = "hash of schedule trace plus (groups, masks, ranks, batch size)"
    real = ["environment set-up, HeliostatRayTracer with and without blocking, samplers, DataLoader, get_bitmaps_per_target, torch.distributed front end and autograd-free collectives"]
    stub = ["rendezvous store and gloo backend", "process start"]
    assumptions = ["all ranks use the same random seed for the sunshape (documented default)", "single precision sums of a few terms agree to 2e-4 relative"]
    tiers = {"quick": dict(cases=500, wall=60), "thorough": dict(cases=12000, wall=1200)}

    def gen(self, rng, i, tier):
        ng = rng.choice([1, 1, 2, 2, 3])
        blocking = rng.random() < 0.5
        groups = [{"act": rng.choice(["linear", "ideal"]), "n": rng.randint(1, 4 if blocking else 5)} for _ in range(ng)]
        spec = world.default_spec(groups=groups, seed=rng.randrange(10), rays=rng.randint(1, 3), points=4 if blocking else rng.choice([2, 3]), cps=rng.choice([3, 4]),
                                  planar=rng.randint(1, 2), cyl=rng.randint(1, 2), layout=rng.choice(["dense", "column"]) if blocking else "spread", shuffle=blocking)
        plan = trace.gen_plan(rng, spec, blocking=blocking)
        w = rng.randint(1, 6)
        return dict(spec=spec, plan=plan, ranks=w, batch=rng.randint(1, 6), sched=sim.gen_sched(rng, w))

    def run(self, case):
        out = Out()
        spec, plan, w = case["spec"], case["plan"], case["ranks"]
        world.template(spec)
        ng = len(spec["groups"])
        def reference():
            shares, total = [], 0
            for g in range(ng):
                s = trace.share(spec, plan, g, batch=10000)
                shares.append(s)
                total = total + trace.per_target(s)
            return shares, total
        ref = sim.one_rank(reference)
        if ref.outcome != "ok":
            return out.fail("raised", f"one process tracing a whole group: {type(ref.error).__name__}: {str(ref.error).split(chr(10))[0][:120]}")
        shares, total = ref.result
        # the reduction itself: per target, the sum of the bitmaps aimed there
        for g, s in enumerate(shares):
            want = torch.zeros_like(total)
            for row, j in enumerate(s["idx"]):
                want[plan["targets"][g][j]] += s["flux"][row]
            if not sim.flux_close(trace.per_target(s), want):
                return out.fail("reduction", f"group {g}: bitmaps per target are not the sums of the bitmaps aimed at them (targets {plan['targets'][g]})")
        job = sim.Job(w, case["sched"])

        def body(p):
            with aenv.setup_distributed_environment(number_of_heliostat_groups=ng, device=DEV) as d:
                mine = {}
                acc = torch.zeros_like(total)
                sc = world.fresh(spec)
                for g in d["groups_to_ranks_mapping"][d["rank"]]:
                    s = trace.share(spec, plan, g, d["heliostat_group_world_size"], d["heliostat_group_rank"], case["batch"], sc=sc, hook=job.k.point)
                    mine[g] = s
                    acc = acc + trace.per_target(s)
                if d["is_nested"]:
                    sub = acc.clone()
                    torch.distributed.all_reduce(sub, op=torch.distributed.ReduceOp.SUM, group=d["process_subgroup"])
                if d["is_distributed"]:
                    torch.distributed.all_reduce(acc, op=torch.distributed.ReduceOp.SUM)
                return mine, acc, (sub if d["is_nested"] else None), d["groups_to_ranks_mapping"][d["rank"]]

        job.run(body)
        job.account(out)
        out.sig = f"{plan['masks']}x{w}x{case['batch']}:" + out.sig
        out.nontrivial = w > 1 or case["batch"] < max(sum(m) for m in plan["masks"])
        if job.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{w} ranks: {job.describe()} {job.anomaly() or ''}")
        for p in job.procs:
            mine, acc, sub, groups = p.result
            if not sim.flux_close(acc, total):
                d = (acc.double() - total.double()).flatten(1).sum(1)
                return out.fail("flux", f"rank {p.rank} of {w}: combined flux per target differs from the single-process result by {[round(float(x), 5) for x in d]} of {[round(float(x), 5) for x in total.flatten(1).sum(1)]} "
                                f"(batch {case['batch']}, blocking {plan['blocking']}, masks {plan['masks']})")
            if sub is not None:
                want = trace.per_target(shares[groups[0]])
                if not sim.flux_close(sub, want):
                    return out.fail("flux", f"rank {p.rank}: flux reduced over the group communicator differs from group {groups[0]}'s single-process flux")
            for g, s in mine.items():
                for row, j in enumerate(s["idx"]):
                    for f in ("intercept", "on_target", "blocking"):
                        if not sim.close(s[f][row], shares[g][f][j], rtol=1e-4, atol=1e-4):
                            return out.fail("factor", f"rank {p.rank}, group {g}, sample {j}: {f} factor {float(s[f][row]):.5f}, single process {float(shares[g][f][j]):.5f} (batch {case['batch']}, blocking {plan['blocking']})")
        return out

    def shrink(self, case):
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "ranks")
        if case["batch"] < 50:
            yield dict(case, batch=50)
        if case["plan"]["blocking"]:
            yield dict(case, plan=dict(case["plan"], blocking=False))


CHECK = Check()
