"""C03: every active sample is traced by exactly one rank and reported under its own index."""
import torch

from dst import sim, trace, world
from dst.runner import Out


class Check:
    id = "C03"
    level = "exploration"
    rule = ("one run = one seeded job of k ranks tracing one heliostat group: field, activation mask (uneven repetitions included), targets, suns, "
            "k, batch size, schedule drawn from the seed; non-trivial = more than one rank or more than one batch, distinct by schedule trace and partition")
    measure = "hash of schedule trace plus (mask, ranks, batch size)"
    real = ["HeliostatRayTracer, distortion dataset and sampler, torch DataLoader, alignment, target intersection, splatting, HDF5 scenario generator and loader"]
    stub = ["process start (threads under the seeded scheduler)", "calibration data and field (generated)"]
    assumptions = ["one node's memory holds every rank of the simulated job"]
    tiers = {"quick": dict(cases=700, wall=50), "thorough": dict(cases=20000, wall=900)}

    def gen(self, rng, i, tier):
        groups = [{"act": rng.choice(["linear", "ideal"]), "n": rng.randint(1, 5)} for _ in range(rng.randint(1, 2))]
        spec = world.default_spec(groups=groups, seed=rng.randrange(12), rays=rng.randint(1, 3), points=2, cps=3, planar=rng.randint(1, 2), cyl=1)
        plan = trace.gen_plan(rng, spec, blocking=False, res=[8, 8])
        gi = rng.randrange(len(groups))
        n = sum(plan["masks"][gi])
        k = rng.randint(1, 6)
        how = rng.random()
        if how < 0.45:
            plan["named"] = rng.randrange(1000)      # the work is given by names, in any order, for all groups at once
        elif how < 0.55:
            plan["named"] = "all"                    # every heliostat of the group, one target and one sun
            plan["masks"][gi] = [1] * len(plan["masks"][gi])
            n = len(plan["masks"][gi])
            plan["targets"][gi] = [plan["targets"][gi][0]] * n
            plan["suns"][gi] = [plan["suns"][gi][0]] * n
        return dict(spec=spec, plan=plan, gi=gi, ranks=k, batch=rng.randint(1, n + 2), sched=sim.gen_sched(rng, k))

    def run(self, case):
        out = Out()
        spec, plan, gi, k = case["spec"], case["plan"], case["gi"], case["ranks"]
        world.template(spec)
        n = sum(plan["masks"][gi])
        ref = sim.one_rank(lambda: trace.share(spec, dict(plan, named=None), gi))
        if ref.outcome != "ok":
            return out.fail("raised", f"one process tracing a whole group: {type(ref.error).__name__}: {str(ref.error).split(chr(10))[0][:120]}")
        ref = ref.result
        if ref["idx"] != list(range(n)) or ref["flux"].shape[0] != n:
            self.judge(out, [ref], n, None)
            if out.violation:
                out.violation = out.violation + " (single process)"
                return out
        job = sim.Job(k, case["sched"])
        job.run(lambda p: trace.share(spec, plan, gi, k, p.rank, case["batch"], hook=job.k.point))
        job.account(out)
        out.sig = f"{plan['masks'][gi]}x{k}x{case['batch']}:" + out.sig
        out.nontrivial = k > 1 or case["batch"] < n
        if job.outcomes() != ["ok"] * k:
            return out.fail("raised", f"{k} ranks, mask {plan['masks'][gi]}, batch {case['batch']}: {job.describe()}")
        return self.judge(out, [p.result for p in job.procs], n, ref)

    @staticmethod
    def judge(out, shares, n, ref):
        owner = {}
        for r, s in enumerate(shares):
            if s["flux"].shape[0] != len(s["idx"]) or any(s[f].shape[0] != len(s["idx"]) for f in ("intercept", "on_target", "blocking")):
                return out.fail("rows", f"rank {r} of {len(shares)} reports samples {s['idx']} but returns {s['flux'].shape[0]} bitmaps and "
                                f"{[s[f].shape[0] for f in ('intercept', 'on_target', 'blocking')]} factors")
            for j in s["idx"]:
                if j in owner:
                    return out.fail("twice", f"sample {j} is traced by ranks {owner[j]} and {r}")
                owner[j] = r
        missing = sorted(set(range(n)) - set(owner))
        if missing:
            return out.fail("untraced", f"samples {missing} of {n} are traced by no rank")
        if set(owner) != set(range(n)):
            return out.fail("unknown", f"samples {sorted(set(owner) - set(range(n)))} do not exist")
        if ref is None:
            return out
        for r, s in enumerate(shares):
            for row, j in enumerate(s["idx"]):
                if not sim.flux_close(s["flux"][row:row + 1], ref["flux"][j:j + 1]):
                    like = [q for q in range(n) if sim.flux_close(s["flux"][row:row + 1], ref["flux"][q:q + 1])]
                    return out.fail("misplaced", f"rank {r} returns under sample {j} a bitmap that is not sample {j}'s (matches samples {like})")
                for f in ("intercept", "on_target", "blocking"):
                    if not sim.close(s[f][row], ref[f][j], rtol=1e-4, atol=1e-4):
                        return out.fail("misplaced", f"rank {r} returns {f} factor {float(s[f][row]):.5f} for sample {j}, expected {float(ref[f][j]):.5f}")
        return out

    def shrink(self, case):
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "ranks")
        n = sum(case["plan"]["masks"][case["gi"]])
        if case["batch"] < n:
            yield dict(case, batch=n)
        if case["plan"].get("named") is not None and case["plan"]["named"] != "all":
            yield dict(case, plan=dict(case["plan"], named=None))
        m = case["plan"]["masks"][case["gi"]]
        for i, v in enumerate(m):
            if case["plan"].get("named") != "all" and v > 0 and sum(m) > v:
                p = dict(case["plan"], masks=[list(x) for x in case["plan"]["masks"]], targets=[list(x) for x in case["plan"]["targets"]], suns=[list(x) for x in case["plan"]["suns"]])
                at = sum(m[:i])
                p["masks"][case["gi"]][i] -= 1
                del p["targets"][case["gi"]][at]
                del p["suns"][case["gi"]][at]
                yield dict(case, plan=p)


CHECK = Check()
