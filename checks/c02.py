"""C02: the distributed environment is entered and left cleanly whatever fails."""
import torch

from artist.util import env as aenv

from dst import sim
from dst.kernel import SimBudget, SimCrash, SimAbort
from dst.runner import Out


class Boom(Exception):
    pass


EXC = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError, "OSError": OSError}


class Check:
    id = "C02"
    level = "fault_enumeration"
    rule = ("one run = one seeded job entering the environment one to three times in a row with injected rendezvous, communicator-creation, "
            "tear-down and body failures; non-trivial = at least one fault or body exception fired, distinct by schedule trace and fault list")
    measure = "hash of the (rank, yield point) sequence of the run and of the fired faults"
    real = ["artist.util.env", "torch.distributed front end (init, new_group, collectives, destroy)"]
    stub = ["rendezvous store and gloo backend (simulated network with injected failures)"]
    assumptions = ["a communicator whose own tear-down failed cannot be reopened in the same process"]
    tiers = {"quick": dict(cases=1000, wall=45), "thorough": dict(cases=20000, wall=600)}

    def gen(self, rng, i, tier):
        w = rng.randint(1, 5)
        g = rng.randint(1, 4)
        cycles = rng.randint(1, 3)
        faults, bodies = [], []
        for c in range(cycles):
            kind = rng.choice(["none", "body", "body", "rendezvous_all", "rendezvous_some", "pg", "destroy", "body+destroy"])
            exc = {}
            if "body" in kind:
                for r in rng.sample(range(w), rng.randint(1, w)):
                    exc[str(r)] = [rng.randint(0, 2), rng.choice(sorted(EXC))]
            if kind == "rendezvous_all":
                faults += [dict(kind="rendezvous_error", rank=r, op=c, err=rng.choice(["net", "store", "value", "os", "runtime"])) for r in range(w)]
            if kind == "rendezvous_some":
                faults += [dict(kind="rendezvous_error", rank=r, op=c, err=rng.choice(["net", "store", "value", "os", "runtime"])) for r in rng.sample(range(w), rng.randint(1, w))]
            if kind == "pg":
                n = g + 1 if w > g else 1
                faults += [dict(kind="pg_error", rank=rng.randrange(w), op=rng.randint(0, n + 1), cycle=c)]
            if "destroy" in kind:
                faults += [dict(kind="destroy_error", rank=r, op=c, err=rng.choice(["runtime", "value", "os", "assert"])) for r in rng.sample(range(w), rng.randint(1, w))]
            bodies.append(exc)
        return dict(world=w, groups=g, bodies=bodies, faults=faults, sched=sim.gen_sched(rng, w))

    def run(self, case):
        out = Out()
        w, g = case["world"], case["groups"]
        job = sim.Job(w, case["sched"], case["faults"])
        D = torch.distributed

        def body(p):
            hist = []
            dirty = False
            for c, plan in enumerate(case["bodies"]):
                step = {"cycle": c, "entered": False, "setup": None, "raised": None, "planned": None, "ok": 0}
                hist.append(step)
                nfired = len(job.k.fired)
                planned = None
                try:
                    with aenv.setup_distributed_environment(number_of_heliostat_groups=g, device=torch.device("cpu")) as s:
                        step["entered"] = True
                        step["setup"] = {k: v for k, v in s.items() if k != "process_subgroup"}
                        step["init"] = D.is_initialized()
                        todo = plan.get(str(p.rank))
                        for n in range(3):
                            if todo and todo[0] == n:
                                planned = EXC[todo[1]]("planned failure")
                                step["planned"] = todo[1]
                                raise planned
                            if s["is_distributed"]:
                                t = torch.tensor([1.0])
                                D.all_reduce(t)
                                if s["process_subgroup"] is not None:
                                    D.all_reduce(t, group=s["process_subgroup"])
                            step["ok"] += 1
                except (SimCrash, SimAbort, SimBudget):
                    raise
                except BaseException as e:  # noqa: BLE001
                    step["raised"] = type(e).__name__
                    step["text"] = str(e)[:160]
                    step["same"] = e is planned
                step["left_open"] = D.is_initialized()
                step["mine"] = [f for f in job.k.fired[nfired:] if f["rank"] == p.rank]
                if any(f["kind"] == "destroy_error" for f in step["mine"]):
                    dirty = True
                step["dirty"] = dirty
                if dirty:
                    break
            return hist

        job.run(body)
        job.account(out)
        out.sig += ":" + ",".join(f"{f['kind']}{f['rank']}@{f['op']}" for f in job.k.fired)
        out.nontrivial = bool(job.k.fired) or any(case["bodies"])
        if job.anomaly("deadlock", "budget", "harness"):
            return out.fail("stuck", job.anomaly("deadlock", "budget", "harness"))
        for p in job.procs:
            if p.outcome != "ok":
                return out.fail("escape", f"rank {p.rank}: {p.outcome} {p.error!r} escaped")
        hist = {p.rank: p.result for p in job.procs}
        apart = False
        for c in range(len(case["bodies"])):
            steps = {r: h[c] for r, h in hist.items() if c < len(h)}
            fired = [f for s in steps.values() for f in s["mine"]]
            # a rank that lost an earlier rendezvous runs minutes apart from its peers
            apart = apart or any(f["kind"] in ("rendezvous_error", "pg_error") for f in fired)
            quiet = not fired and not apart and len(steps) == w and not case["bodies"][c]
            for r, s in steps.items():
                tag = f"rank {r}, entry {c}"
                tfail = any(f["kind"] == "destroy_error" for f in s["mine"])
                if s["left_open"] and not tfail:
                    return out.fail("leak", f"{tag}: a communicator is still open after the environment was left (entered={s['entered']}, raised={s['raised']}: {s.get('text')})")
                if s["planned"] and not s["same"]:
                    return out.fail("masked", f"{tag}: the body raised {s['planned']} but the caller saw {s['raised']}: {s.get('text')}")
                if not s["planned"] and s["entered"] and s["raised"] and s["ok"] == 3:
                    return out.fail("teardown", f"{tag}: the body finished normally but leaving raised {s['raised']}: {s.get('text')}")
                if quiet and (s["raised"] or not s["setup"]["is_distributed"] or s["setup"]["world_size"] != w or s["ok"] != 3):
                    return out.fail("reenter", f"{tag}: fault-free entry gave {s['setup']} raised={s['raised']} {s.get('text')}")
                if any(f["kind"] == "rendezvous_error" for f in s["mine"]):
                    if not s["entered"]:
                        return out.fail("fallback", f"{tag}: rendezvous failed and the process was not given a single-process set-up: {s['raised']} {s.get('text')}")
                if s["entered"] and not s["setup"]["is_distributed"]:
                    e = s["setup"]
                    served = sorted(x for gs in dict(e["groups_to_ranks_mapping"]).values() for x in gs)
                    if e["rank"] != 0 or e["world_size"] != 1 or e["is_nested"] or e["heliostat_group_rank"] != 0 or e["heliostat_group_world_size"] != 1 or served != list(range(g)) or s["init"]:
                        return out.fail("fallback", f"{tag}: single-process set-up is inconsistent: {e} initialized={s['init']}")
                if s["entered"] and s["setup"]["is_distributed"] and s["setup"]["world_size"] != w:
                    return out.fail("reenter", f"{tag}: world size {s['setup']['world_size']} instead of {w}")
        return out

    def shrink(self, case):
        yield from sim.shrink_list(case, "faults")
        if len(case["bodies"]) > 1:
            for i in range(len(case["bodies"])):
                c = dict(case)
                c["bodies"] = case["bodies"][:i] + case["bodies"][i + 1:]
                yield c
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "world")
        yield from sim.shrink_int(case, "groups")


CHECK = Check()
