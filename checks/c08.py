"""C08: a rank failing in the middle of an optimisation is never turned into a wrong result or a hang."""
import torch

from dst import recon, sim, world
from dst.kernel import SimCrash, kernel
from dst.runner import Out

from checks.c06 import KINDS, gen_spec, shrink_job
from checks.c07 import flat, same


class Check:
    id = "C08"
    level = "fault_enumeration"
    rule = ("one run = one seeded distributed optimisation in which up to two faults hit a rank at a drawn collective or optimizer step (process death, broken connection, failing allocation, rank stalled for minutes up to past the communication timeout), "
            "compared with the fault-free run of the same job; non-trivial = a fault fired, distinct by schedule trace and fault list")
    measure = "hash of the (rank, yield point) sequence plus fired faults and job kind"
    real = ["KinematicsReconstructor, SurfaceReconstructor, AimPointOptimizer, training loop helpers, ray tracer, environment set-up and tear-down, torch optimizers, torch.distributed front end with autograd collectives"]
    stub = ["rendezvous store and gloo backend (a closed or dead peer fails the collectives waiting for it, as gloo does)", "process start", "calibration data (generated through the parser interface)"]
    assumptions = ["a process dies between two communication or optimizer steps", "the default communication timeout of 30 minutes is virtual time"]
    tiers = {"quick": dict(cases=300, wall=65), "thorough": dict(cases=6000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        spec = gen_spec(rng, kind)
        job = recon.gen_job(rng, kind, spec)
        job["tol"] = rng.choice([0.0, 0.0, 0.2])
        w = rng.randint(2, 4)
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choice(["crash", "crash", "net_error", "stall", "late", "alloc_error", "crash_step"])
            r = rng.randrange(w)
            if f == "stall":
                faults.append(dict(kind="stall", rank=r, op=rng.randint(0, 20), seconds=rng.choice([5.0, 120.0, 1500.0])))
            elif f == "late":
                faults.append(dict(kind="stall", rank=r, op=rng.randint(0, 20), seconds=4000.0))
            else:
                faults.append(dict(kind=f, rank=r, op=rng.randint(0, 4) if f in ("alloc_error", "crash_step") else rng.choice([rng.randint(0, 6), rng.randint(0, 30)])))
        return dict(spec=spec, job=job, ranks=w, faults=faults, sched=sim.gen_sched(rng, w))

    def run(self, case):
        sim.hook_optimizer()
        out = Out()
        spec, job, w = case["spec"], case["job"], case["ranks"]
        kind = job["kind"]
        if kind != "aim":
            recon.measurements(spec, job)
        world.template(spec)
        inner = recon.rank_body(spec, job)

        def body(p):
            k = kernel()

            def on_step(opt):
                n = p.data["opt_steps"] - 1
                if k.take_fault("crash_step", p.rank, n):
                    raise SimCrash(f"optimizer step {n}")
                if k.take_fault("alloc_error", p.rank, n):
                    raise MemoryError("simulated: cannot allocate memory")
            p.data["on_step"] = on_step
            return inner(p)

        good = sim.Job(w, {"seed": 0, "mode": "fifo"}, max_steps=40000).run(body)
        run = sim.Job(w, case["sched"], case["faults"], max_steps=40000)
        run.run(body)
        run.account(out)
        fired = run.k.fired
        out.sig = f"{kind}:{w}:{[(f['kind'], f['rank'], f['op']) for f in fired]}:" + out.sig
        out.nontrivial = bool(fired)
        tag = f"{kind} with {w} ranks, faults {[(f['kind'], f['rank'], f['op']) for f in fired]}"
        if good.outcomes() != ["ok"] * w:
            return out.fail("raised", f"{kind} with {w} ranks without faults: {good.anomaly() or ''} {good.describe()}")
        a = run.anomaly("mismatch", "deadlock", "budget", "harness")
        if a:
            return out.fail("stuck", f"{tag}: {a}")
        hard = any(f["kind"] != "stall" or f.get("seconds", 0) > 1700 for f in fired)
        for p in run.procs:
            mine = [f for f in fired if f["rank"] == p.rank]
            out.stats["outcome:" + p.outcome] += 1
            if p.outcome == "budget":
                return out.fail("unbounded", f"{tag}: rank {p.rank} never stops: {p.error}")
            if p.outcome == "ok":
                if any(f["kind"] in ("crash", "crash_step", "net_error", "alloc_error") for f in mine):
                    return out.fail("swallowed", f"{tag}: rank {p.rank} reports success although its own operation failed")
                want, got = good.procs[p.rank].result, p.result
                for g in range(len(spec["groups"])):
                    for key in recon.OPTIMISED[kind]:
                        if not sim.close(got["state"][g][key], want["state"][g][key], rtol=1e-5, atol=1e-6):
                            return out.fail("wrong-result", f"{tag}: rank {p.rank} finishes normally with {key} of group {g} different from the fault-free run")
                if not sim.close(got["final"], want["final"], rtol=1e-5, atol=1e-7) or not same(flat(got["history"]), flat(want["history"])):
                    return out.fail("wrong-result", f"{tag}: rank {p.rank} finishes normally with other losses than the fault-free run: {got['final'].tolist()} / {want['final'].tolist()}")
            elif p.outcome == "error":
                if not hard:
                    return out.fail("raised", f"{tag}: rank {p.rank} fails although ranks were only slow: {type(p.error).__name__}: {str(p.error)[:200]}")
                if "simulated:" not in str(p.error):
                    return out.fail("raised", f"{tag}: rank {p.rank} fails with an unrelated error {type(p.error).__name__}: {str(p.error)[:200]}")
            if p.outcome != "crash" and p.data.get("comm_left_open"):
                return out.fail("leak", f"{tag}: rank {p.rank} ({p.outcome}) ends with an open communicator")
        return out

    def shrink(self, case):
        yield from sim.shrink_list(case, "faults")
        yield from shrink_job(case)


CHECK = Check()
