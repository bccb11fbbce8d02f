"""C01: every rank derives the same, complete and balanced work assignment."""
import torch

from artist.util import env as aenv

from dst import sim
from dst.runner import Out


class Check:
    id = "C01"
    level = "exploration"
    rule = ("one run = one seeded simulated job (world size, number of heliostat groups, schedule, delays and stalled ranks drawn from the seed) "
            "in which every rank enters the real environment set-up; non-trivial = at least two ranks, distinct by (sizes, schedule trace)")
    measure = "hash of the (rank, yield point) sequence of the run plus the sizes"
    real = ["artist.util.env (all of it)", "torch.distributed front end: init_process_group, new_group, object collectives, destroy_process_group"]
    stub = ["rendezvous store and gloo backend (simulated network)", "process start (threads under the seeded scheduler)"]
    assumptions = ["torch.distributed.new_group must be entered by all ranks in the same order (torch's contract)"]
    tiers = {"quick": dict(cases=900, wall=40), "thorough": dict(cases=20000, wall=600)}

    def gen(self, rng, i, tier):
        big = rng.random() < 0.1
        w = rng.randint(1, 14 if big else 7)
        g = rng.randint(1, 14 if big else 6)
        if rng.random() < 0.15:
            g = w + rng.choice([-1, 0, 1]) or 1
        return dict(world=w, groups=max(1, g), sched=sim.gen_sched(rng, w), distributed=rng.random() > 0.05,
                    pure=[rng.randint(1, 96), rng.randint(1, 64)])

    @staticmethod
    def check_mapping(out, mapping, nested, world, groups, where):
        """Requirements on the rank -> groups mapping, independent of how it is computed."""
        m = {int(r): [int(x) for x in gs] for r, gs in dict(mapping).items()}
        if sorted(m) != list(range(world)):
            return out.fail("mapping", f"{where}: ranks {sorted(m)} are listed for world size {world}")
        if bool(nested) != (world > groups):
            return out.fail("nested", f"{where}: nested={nested} for {world} ranks and {groups} groups")
        owners = {g: [r for r in m if g in m[r]] for g in range(groups)}
        extra = sorted({g for gs in m.values() for g in gs} - set(range(groups)))
        if extra:
            return out.fail("mapping", f"{where}: unknown groups {extra} are assigned")
        if any(len(set(gs)) != len(gs) for gs in m.values()):
            return out.fail("duplicate", f"{where}: a rank lists a group twice: {m}")
        missing = [g for g in owners if not owners[g]]
        if missing:
            return out.fail("unserved", f"{where}: groups {missing} are assigned to no rank: {m}")
        if nested:
            if any(len(gs) != 1 for gs in m.values()):
                return out.fail("mapping", f"{where}: a rank of a nested run does not have exactly one group: {m}")
            loads = [len(o) for o in owners.values()]
        else:
            if any(len(o) != 1 for o in owners.values()):
                return out.fail("duplicate", f"{where}: a group is worked on by several ranks: {m}")
            loads = [len(gs) for gs in m.values()]
        if max(loads) - min(loads) > 1:
            return out.fail("balance", f"{where}: loads differ by more than one: {m}")
        return out

    def run(self, case):
        out = Out()
        w, g = case["world"], case["groups"]
        for (pw, pg) in (case["pure"], (w, g)):
            self.check_mapping(out, *aenv.distribute_groups_among_ranks(pw, pg), pw, pg, f"{pw} ranks, {pg} groups")
        if out.violation:
            return out
        job = sim.Job(w, case["sched"], env=case["distributed"])

        def body(p):
            with aenv.setup_distributed_environment(number_of_heliostat_groups=g, device=torch.device("cpu")) as s:
                d = dict(s)
                sub = d.pop("process_subgroup")
                members, everyone = None, None
                if d["is_distributed"]:
                    objs = [None] * d["world_size"]
                    torch.distributed.all_gather_object(objs, (d["rank"], d["heliostat_group_rank"]))
                    everyone = objs
                if sub is not None:
                    n = torch.distributed.get_world_size(sub)
                    objs = [None] * n
                    torch.distributed.all_gather_object(objs, (d["rank"], d["heliostat_group_rank"], d["heliostat_group_world_size"]), group=sub)
                    members = objs
                d["members"], d["everyone"] = members, everyone
                return d

        job.run(body)
        job.account(out)
        out.sig = f"{w}x{g}:" + out.sig
        out.nontrivial = w > 1
        if job.outcomes() != ["ok"] * w:
            return out.fail("setup", f"fault-free set-up with {w} ranks and {g} groups: {job.describe()} {job.anomaly() or ''}")
        res = [p.result for p in job.procs]
        if not case["distributed"]:
            for r in res:
                if r["is_distributed"] or r["world_size"] != 1 or r["rank"] != 0 or r["is_nested"] or r["heliostat_group_world_size"] != 1 or r["heliostat_group_rank"] != 0:
                    return out.fail("single", f"without a launcher a process must work alone, got {r}")
                self.check_mapping(out, r["groups_to_ranks_mapping"], r["is_nested"], 1, g, "single process")
            return out
        norm = lambda m: {int(a): list(b) for a, b in dict(m).items()}
        for i, r in enumerate(res):
            if not r["is_distributed"] or r["rank"] != i or r["world_size"] != w:
                return out.fail("identity", f"rank {i} of {w} sees rank {r['rank']}, world {r['world_size']}, distributed {r['is_distributed']}")
            if norm(r["groups_to_ranks_mapping"]) != norm(res[0]["groups_to_ranks_mapping"]) or r["is_nested"] != res[0]["is_nested"]:
                return out.fail("disagree", f"rank {i} derives {norm(r['groups_to_ranks_mapping'])}, rank 0 derives {norm(res[0]['groups_to_ranks_mapping'])}")
            inv = {gg: sorted(rr for rr, gs in norm(r["groups_to_ranks_mapping"]).items() if gg in gs) for gg in range(g)}
            if {a: sorted(b) for a, b in norm(r["ranks_to_groups_mapping"]).items()} != inv:
                return out.fail("inverse", f"rank {i}: the two views of the assignment disagree: {norm(r['groups_to_ranks_mapping'])} / {norm(r['ranks_to_groups_mapping'])}")
        self.check_mapping(out, res[0]["groups_to_ranks_mapping"], res[0]["is_nested"], w, g, "distributed run")
        if out.violation:
            return out
        m = norm(res[0]["groups_to_ranks_mapping"])
        for i, r in enumerate(res):
            if w > g:
                mates = sorted(q for q in m if m[q] == m[i])
                if r["members"] is None:
                    return out.fail("communicator", f"rank {i} of a nested run has no group communicator")
                got = sorted(x[0] for x in r["members"])
                if got != mates:
                    return out.fail("communicator", f"rank {i}: communicator joins ranks {got}, the group belongs to {mates}")
                if sorted(x[1] for x in r["members"]) != list(range(len(mates))) or {x[2] for x in r["members"]} != {len(mates)}:
                    return out.fail("subrank", f"rank {i}: sub-ranks/sizes in its group are {r['members']}")
            elif r["members"] is not None or r["heliostat_group_rank"] != 0 or r["heliostat_group_world_size"] != 1:
                return out.fail("subrank", f"rank {i} of a non-nested run is {r['heliostat_group_rank']} of {r['heliostat_group_world_size']}")
        return out

    def shrink(self, case):
        yield from sim.shrink_sched(case)
        yield from sim.shrink_int(case, "world")
        yield from sim.shrink_int(case, "groups")


CHECK = Check()
