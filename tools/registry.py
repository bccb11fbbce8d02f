"""Source of properties.jsonl and MANIFEST.json: python tools/registry.py (run from /verif)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, tech=None, level="exploration", note=None, na=None, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                  _tech=tech, _level=level, _note=note, _na=na))


E_ = "artist/util/env.py"
RT = "artist/raytracing/heliostat_ray_tracer.py"
SA = "artist/raytracing/sampling.py"
KR, SR, AO, TR = ("artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/optim/aim_point_optimizer.py", "artist/optim/training.py")
HG = "artist/field/heliostat_group.py"
HR = "artist/field/heliostat_group_rigid_body.py"

prop("C01", "Work assignment is complete, consistent and balanced on every rank",
     "For every number of processes and heliostat groups, all processes of a job derive the same assignment of heliostat groups to processes, every group is served, no process serves a group twice, and the load differs by at most one. "
     "With more processes than groups the processes of each group form one communication subgroup whose rank numbers are 0..size-1 and whose collectives reach exactly the processes of that group; otherwise every group belongs to exactly one process.",
     ["configurations", "schedules"], "every world size, number of groups and order in which the processes enter the set-up",
     "Tests pass one or two fixed sizes with mocked process groups; whether all ranks agree for every size and arrival order, and whether the subgroups really connect the right ranks, is never executed.",
     [E_], [("groups-to-ranks mapping", E_ + "::setup_distributed_environment / distribute_groups_among_ranks"), ("subgroup creation", E_ + "::create_subgroups_for_nested_ddp")],
     ["the set-up dictionary yielded to the caller", "collectives issued on the yielded subgroup"],
     "seeded multi-rank schedules of the environment set-up over a simulated network", note="seeded sample of world sizes 1-12, groups 1-9, delays and stalls; trusts torch's python front end and the simulated gloo model")

prop("C02", "The distributed environment is entered and left cleanly whatever fails",
     "Whatever exception leaves the body, and whether rendezvous, subgroup creation or tear-down fails, every process leaves the distributed environment with no open communicator, the exception of the body reaches the caller unchanged, and entering the environment again afterwards works. "
     "If rendezvous fails on a process it falls back to a consistent single-process set-up in which that process serves all heliostat groups.",
     ["fault_sequences", "schedules"], "every placement of rendezvous, subgroup-creation, tear-down and body failures over ranks and over repeated entries, under every arrival order",
     "The tests never fail a rendezvous or a tear-down on some ranks only, nor enter the environment repeatedly after a failure.",
     [E_], [("context manager with clean-up", E_ + "::setup_distributed_environment"), ("fallback", E_ + "::initialize_ddp_environment")],
     ["set-up dictionary", "exceptions reaching the caller", "communicators still open after exit"],
     "fault sequences at rendezvous, subgroup creation, body and tear-down", "fault_enumeration", "seeded fault sequences over up to three consecutive entries; trusts the simulated store and gloo model")

prop("C03", "Every active sample is traced by exactly one process, under its own index",
     "For any heliostat group, activation mask (repetitions may differ between heliostats), number of processes and batch size, every active sample is traced by exactly one process, and each process returns exactly as many bitmaps and factors as samples it reports, in that order. "
     "The bitmap of a sample is that of its own heliostat, incident ray direction and target, as a single unbatched process computes it from the same sunshape draw. This also holds for work given as a list of heliostat, target and sun by name, in any order and for all groups at once.",
     ["configurations", "inputs", "schedules"], "all masks, process counts (also more processes than samples), batch sizes and interleavings of the processes",
     "Tests trace equal repetition counts with one or two ranks and compare with stored bitmaps; uneven masks, idle ranks and batch boundaries inside a heliostat's samples are not sampled.",
     [RT, SA, "artist/scenario/scenario.py"], [("restricted distributed sampler", SA + "::RestrictedDistributedSampler"), ("distortion dataset", SA + "::DistortionsDataset"), ("mapping by names", "artist/scenario/scenario.py::Scenario.index_mapping"), ("batch loop and index bookkeeping", RT + "::HeliostatRayTracer.trace_rays / get_sampler_indices")],
     ["returned bitmaps and factors", "sample indices reported by the tracer"],
     "seeded simulated ranks tracing shares of one field, compared with a one-process reference", note="seeded fields up to 5 heliostats x 3 samples, 1-6 ranks; trusts torch numerics")

prop("C04", "The combined flux does not depend on processes, groups or batches",
     "Summing the per-target bitmaps of all processes gives, for every number of processes, cut of the field into groups and batch size, the bitmaps a single unbatched process computes, with and without blocking. "
     "The same holds for the per-target sums: each bitmap is added to exactly the target its sample was aimed at.",
     ["configurations", "schedules"], "all process counts, batch sizes and assignments of groups to processes, under every message order",
     "Tests compare a couple of fixed configurations to stored flux; no test relates two partitions of the same work to each other.",
     [RT, SA, E_], [("bitmaps per target", RT + "::get_bitmaps_per_target"), ("work assignment", E_), ("seeded ray distortions", SA)],
     ["bitmaps per target after the all-reduce"],
     "seeded distributed runs with real collectives over the simulated network against one process", note="seeded sample; equality up to single-precision summation")

prop("C06", "Distributed optimisations finish in bounded steps without mismatched messages",
     "Kinematics reconstruction (both methods), surface reconstruction and aim point optimisation end on every process after at most the configured number of epochs plus one optimisation step per heliostat group, for every number of processes and groups, including processes without samples and groups without data. "
     "All processes issue matching collective operations, so that none waits for a message that never comes and none fails.",
     ["configurations", "schedules", "histories"], "all process counts, group sizes, samples per group, loss functions, tolerances, stopping settings and message delays",
     "Tests run one or two ranks without delays; a rank stopping earlier than its peers deadlocks only for particular losses, partitions and tolerances.",
     [KR, SR, AO, TR], [("group-wide loss and stopping decision", "reconstruction loops of " + KR + ", " + SR), ("joint all-reduces", AO)],
     ["optimizer steps", "order and shape of collectives per process", "termination of every process"],
     "seeded multi-rank optimisation runs with mismatch and deadlock detection", note="progress bound in optimizer steps and simulator steps; ranks of up to five, fields of up to nine heliostats")

prop("C07", "Replicas agree, and distributed optimisations refine the one-process result",
     "After every step and at the end, processes that optimise the same heliostat group hold identical parameters and report identical losses, and after the optimisation every process holds the result of every group. "
     "If the random ray draws are irrelevant (nearly point-like sun) or the partition does not change them, losses, first gradients and final parameters agree with those of one process doing the whole job, whatever the number of processes and batch size.",
     ["configurations", "schedules"], "all partitions of heliostat groups and samples over processes, including idle ones, under every message order",
     "Tests check stored results for one rank count; gradients lost or counted twice in a partition give plausible but wrong parameters that no fixed expectation notices.",
     [KR, SR, AO, TR], [("gradient all-reduce inside subgroups", KR + ", " + SR), ("broadcast of results from the serving ranks", KR + ", " + SR), ("differentiable flux all-reduce", AO)],
     ["parameters of every process after every step", "returned loss and history", "scenario state after the call"],
     "seeded multi-rank optimisations compared rank by rank and with one process", note="refinement with tolerances derived from the sensitivity of the one-process run")

prop("C08", "A process failing in mid-optimisation never yields a wrong result or a hang",
     "If a process dies, loses its connection, runs out of memory or stalls at any communication or optimisation step, every other process either finishes with exactly the result of the fault-free run or raises within the communication timeout. "
     "No process hangs beyond the timeout, returns parameters computed from partial contributions, or leaves a communicator open.",
     ["crash_points", "fault_sequences", "schedules"], "every communication or optimizer step at which a process may die, disconnect, fail to allocate or stall",
     "No test injects any failure.",
     [KR, SR, AO, E_], [("errors of collectives propagate", KR + ", " + SR + ", " + AO), ("tear-down on exception", E_ + "::setup_distributed_environment")],
     ["outcome of every process", "results of surviving processes", "open communicators"],
     "crash, disconnect, allocation failure and stall at drawn steps of a distributed optimisation", "fault_enumeration", "up to two faults per run; trusts the model that a dead peer fails collectives waiting for it")

prop("C15", "An optimisation only moves what it may move",
     "A kinematics reconstruction changes only rotation deviations, a surface reconstruction only control points (the outermost ones only out of plane) and the surfaces derived from them, an aim point optimisation only motor positions; everything else in the scenario keeps its value. "
     "Heliostats without measurements keep their parameters, motor positions of actuators with a range stay within it at every step, and all parameters stay finite for finite losses.",
     ["configurations", "histories", "schedules"], "all learning rates, schedulers, epochs, partitions and activation masks, at every optimisation step",
     "Tests compare final parameters with stored ones for one configuration; they do not look at parameters that must not move, at intermediate steps, or at idle heliostats.",
     [KR, SR, AO, HG, HR], [("optimised leaf tensors and masked gradients", SR), ("motor reparameterisation within limits", AO), ("activation by mask", HG)],
     ["scenario state before, during and after the call"],
     "state invariants evaluated at every optimizer step of every simulated rank", note="seeded jobs; limits are judged for actuators whose motor positions are steps")

prop("C17", "Shading does not depend on how the field is partitioned or how large it is",
     "With blocking active, bitmaps and blocking factors of every heliostat are the same whether the field is one heliostat group in one process or cut into several groups over several processes and batches. "
     "A heliostat is never blocked by its own surface, and in a field of any size it loses at least the rays that any other heliostat alone would take from it and at most those that all others take: rays are lost where straight lines from its mirror towards the target meet the mirrors of other heliostats, aligned or lying flat, and nowhere else.",
     ["configurations", "schedules"], "all dense fields, cuts into groups, process counts and batch sizes",
     "The only blocking tests use one group in one process.",
     [RT, "artist/raytracing/blocking.py"], [("blocking over all groups with own-surface exclusion", RT + "::HeliostatRayTracer"), ("bounding-volume hierarchy filter", "artist/raytracing/blocking.py")],
     ["bitmaps and blocking factors per heliostat"],
     "seeded partitions of dense fields over simulated ranks against one group in one process", note="metamorphic comparisons; fields of up to 13 heliostats")

prop("C18", "Stopping and learning rates follow the configured rules for every loss history",
     "An optimisation goes on while the recorded loss exceeds the tolerance and the epoch budget is not used up, and stops when, for the configured patience of consecutive windows, the relative improvement over the configured window stays at or below the configured minimum. "
     "The learning rate of every step is the one prescribed by the configured scheduler from the losses so far, and the recorded history contains the loss of every completed epoch in order, whatever the loss history (plateaus, jumps, not-a-number).",
     ["histories", "configurations"], "all loss histories, stopping windows, patiences, schedulers, partitions and logging intervals",
     "Tests exercise the stopping helper with two sequences and run the optimisers for a handful of epochs; the state machine over whole histories is not compared to a reference.",
     [TR, KR, SR, AO], [("early stopping", TR + "::EarlyStopping"), ("scheduler factories", TR), ("epoch loop and history recording", KR + ", " + SR + ", " + AO)],
     ["optimizer steps and their learning rates", "returned loss histories"],
     "prescribed and real loss histories driven through whole optimisations, compared with a reference state machine", note="reference implementation of the documented rules; up to 15 epochs per run")

PENDING = "check under construction; not claimed yet"
EXTRA = os.path.join(ROOT, "tools", "registry_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

# pure functions: no schedule, clock, fault or history in them
for id, title, st, files, mech in [
    ("C90", "NURBS surfaces interpolate and differentiate exactly", "Evaluated NURBS surface points and normals equal those of the mathematical surface for all control points, degrees and knots.", ["artist/nurbs/surfaces.py"], [("basis functions", "artist/nurbs/surfaces.py")]),
    ("C91", "Coordinate and rotation transforms are mutually inverse and orthonormal", "Coordinate conversions and rotation builders are inverse to each other and preserve lengths and angles for all inputs.", ["artist/geometry/coordinates.py", "artist/geometry/rotations.py", "artist/geometry/transforms.py"], [("transforms", "artist/geometry")]),
    ("C92", "Alignment reflects the sun onto the aim point", "For all kinematics and deviations the aligned heliostat reflects the incident ray direction towards its aim point within the documented accuracy, and motor positions and angles convert back and forth without loss.", ["artist/field/kinematics_rigid_body.py", "artist/field/actuators_linear.py"], [("iterative inverse kinematics", "artist/field/kinematics_rigid_body.py")]),
    ("C93", "Loss functions and regularisers equal their mathematical definitions", "Every loss and regulariser returns the value of its documented formula for all predictions and ground truths.", ["artist/optim/loss.py", "artist/optim/regularizers.py"], [("losses", "artist/optim/loss.py")]),
    ("C94", "Ray-target intersections lie on the target and on the ray", "Intersections with planar and cylindrical targets lie on the target surface and on the ray for all rays.", ["artist/raytracing/geometry.py"], [("intersection", "artist/raytracing/geometry.py")]),
]:
    prop(id, title, st, ["inputs"], "all inputs", "Tests sample a handful of inputs.", files, mech, ["returned tensors"],
         na="a pure function of its input: no schedule, clock, I/O, randomness, fault or history for a simulator to control; deciding it would be input generation, not simulation")


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["_na"]:
            na.append(dict(property=p["id"], reason=p["_na"]))
        else:
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}", technique=TECH + p["_tech"], level=p["_level"], level_note=p["_note"]))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./check --selfcheck", checks=checks, not_applicable=na,
                       notes="no hooks in /repo: every seam (torch.distributed stores and process groups, environment variables, clocks, file calls, optimizer steps) is reached from outside, so there is no guard"), f, indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
