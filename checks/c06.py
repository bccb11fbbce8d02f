"""C06: every distributed optimisation finishes in bounded steps without mismatched communication."""
import math

from dst import recon, sim, world
from dst.runner import Out

KINDS = ("kin_flux", "kin_align", "surface", "aim")


def gen_spec(rng, kind, small=False, tiny_sun=False, max_groups=3, acts=None):
    ng = rng.choice([1, 1, 2, 2, 3][: max_groups + 2])
    groups = [{"act": rng.choice(acts or ["linear", "ideal"]), "n": rng.randint(1, 3)} for _ in range(ng)]
    return world.default_spec(groups=groups, seed=rng.randrange(6), rays=rng.randint(1, 2), points=4 if kind == "aim" else 3, cps=4,
                              planar=1, cyl=1, layout=rng.choice(["spread", "dense"]) if kind == "aim" else "spread", cov=1e-14 if tiny_sun else 4.3681e-06)


class Check:
    id = "C06"
    level = "exploration"
    rule = ("one run = one seeded distributed kinematics/surface reconstruction or aim-point optimisation (field, data, ranks, batch, loss, tolerance, early stopping, scheduler, "
            "message and rank delays drawn from the seed); non-trivial = at least two ranks, distinct by schedule trace and job")
    measure = "hash of the (rank, yield point) sequence (collectives, optimizer steps) plus job kind and sizes"
    real = ["KinematicsReconstructor, SurfaceReconstructor, AimPointOptimizer, training loop helpers, ray tracer, environment set-up, torch optimizers, torch.distributed front end with autograd collectives"]
    stub = ["rendezvous store and gloo backend", "process start", "calibration data (generated through the parser interface)"]
    assumptions = ["every rank is given the same configuration and data", "ranks are delayed but none fails"]
    tiers = {"quick": dict(cases=260, wall=70), "thorough": dict(cases=6000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        spec = gen_spec(rng, kind)
        w = rng.randint(2, 5) if rng.random() < 0.93 else 1
        return dict(spec=spec, job=recon.gen_job(rng, kind, spec), ranks=w, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w = case["spec"], case["job"], case["ranks"]
        recon.measurements(spec, job) if job["kind"] != "aim" else None
        run = sim.Job(w, case["sched"], max_steps=40000)
        run.run(recon.rank_body(spec, job))
        run.account(out)
        out.sig = f"{job['kind']}:{w}:{[g['n'] for g in spec['groups']]}:" + out.sig
        out.nontrivial = w > 1
        out.stats["kind:" + job["kind"]] += 1
        tag = f"{job['kind']} with {w} ranks, groups of {[g['n'] for g in spec['groups']]}"
        a = run.anomaly("mismatch", "deadlock", "budget", "timeout", "peer-gone")
        root = [p for p in run.procs if p.outcome not in ("ok",) and "simulated:" not in str(p.error)]
        if run.outcomes() != ["ok"] * w:
            if any(p.outcome == "budget" for p in run.procs):
                return out.fail("unbounded", f"{tag}: {run.describe()}")
            if root:
                return out.fail("raised", f"{tag}: rank {root[0].rank} fails: {type(root[0].error).__name__}: {str(root[0].error)[:200]}; others: {a}")
            return out.fail("communication", f"{tag}: {a or run.describe()}")
        if a:
            return out.fail("communication", f"{tag}: {a}")
        for p in run.procs:
            for n in sim.steps_per_optimizer(p):
                if n > job["max_epoch"] + 1:
                    return out.fail("unbounded", f"{tag}: rank {p.rank} made {n} optimisation steps with max_epoch {job['max_epoch']}")
            if run.net.inits.get(p.rank, 0) and p.data.get("comm_left_open"):
                return out.fail("leak", f"{tag}: rank {p.rank} ends with an open communicator")
        return out

    def shrink(self, case):
        yield from shrink_job(case)


def shrink_job(case):
    yield from sim.shrink_sched(case)
    yield from sim.shrink_int(case, "ranks")
    j, s = case["job"], case["spec"]
    for key, low in (("max_epoch", 1), ("batch", 1)):
        if j[key] > low:
            yield dict(case, job=dict(j, **{key: low}))
    for key, val in (("tol", 0.0), ("ws", 0.0), ("wi", 0.0), ("log_step", 1), ("dni", None if j["kind"] != "aim" else 800.0), ("es_pat", 3), ("sched", "exponential")):
        if j[key] != val:
            yield dict(case, job=dict(j, **{key: val}))
    if len(s["groups"]) > 1:
        for d in range(len(s["groups"])):
            c = [x for k, x in enumerate(j["counts"]) if k != d]
            if j["kind"] == "aim" or any(any(x) for x in c):
                yield dict(case, spec=dict(s, groups=[x for k, x in enumerate(s["groups"]) if k != d]), job=dict(j, counts=c))
    for gi, g in enumerate(s["groups"]):
        if g["n"] > 1:
            gs = [dict(x) for x in s["groups"]]
            gs[gi]["n"] -= 1
            c = [list(x) for x in j["counts"]]
            c[gi] = c[gi][:-1]
            if j["kind"] == "aim" or any(any(x) for x in c):
                yield dict(case, spec=dict(s, groups=gs), job=dict(j, counts=c))


CHECK = Check()
