"""C09: writing a scenario is all or nothing, whatever the disk does and wherever the process dies."""
import hashlib
import os
import pathlib
import random

import h5py
import torch

from dst import disk, sim, world
from dst.runner import Out

from artist.scenario import H5ScenarioGenerator, Scenario

OLD, NEW, OTHER = 1, 2, 3


def spec_of(seed, case):
    rng = random.Random(f"c09:{seed}:{case['shape']}")
    return world.default_spec(groups=[{"act": rng.choice(["linear", "ideal"]), "n": rng.randint(1, 3)} for _ in range(rng.randint(1, 2))], seed=seed,
                              planar=rng.randint(1, 3), cyl=rng.randint(1, 2), facets=rng.choice([1, 2, 4]), cps=rng.choice([4, 7]), rays=rng.randint(1, 9), cov=1e-6 * seed)


def content(path):
    """Digest of everything stored in a scenario file, or None if it cannot be read completely."""
    try:
        h = hashlib.sha256()
        with h5py.File(path, "r") as f:
            items = []
            f.visititems(lambda name, o: items.append(name))
            for k, v in sorted(f.attrs.items()):
                h.update(f"{k}={v!r};".encode())
            for name in sorted(items):
                o = f[name]
                h.update(name.encode())
                if isinstance(o, h5py.Dataset):
                    v = o[()]
                    h.update(str(o.dtype).encode() + str(o.shape).encode() + (v if isinstance(v, bytes) else v.tobytes()))
            Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor([2, 2]), device=world.DEV)
        return h.hexdigest()
    except Exception:
        return None


def names(path):
    """Names of all datasets in a scenario file."""
    got = set()
    with h5py.File(path, "r") as f:
        f.visititems(lambda name, o: got.add(name) if isinstance(o, h5py.Dataset) else None)
    return got


def stored(spec, d):
    """Names of all datasets of an undisturbed generation."""
    p = pathlib.Path(d, "whole.h5")
    world.write_file(spec, p)
    got = names(p)
    p.unlink()
    return got


def poison(cfg, where):
    """A configuration with one value that HDF5 cannot store, in the given part."""
    bad = object()
    if where == "plane" and cfg["target_area_list_planar_config"].target_area_list:
        cfg["target_area_list_planar_config"].target_area_list[-1].center = bad
    elif where == "light":
        cfg["light_source_list_config"].light_source_list[0].number_of_rays = bad
    else:
        cfg["heliostat_list_config"].heliostat_list[-1].position = bad
    return cfg


class Check:
    id = "C09"
    level = "fault_enumeration"
    rule = ("one run = one scenario generated over a missing or an existing scenario file by a simulated process whose every file operation is numbered, with process death or a torn write before or in a drawn operation, failing, short or interrupted operations, "
            "power loss (data that was not synced is lost, cut short or zeroed), a disk filling up, an unstorable value, a reader keeping the old file open, or a second generator interleaved operation by operation; the path is examined afterwards (and, with two generators, at drawn instants); "
            "non-trivial = a fault fired or a second process took part, distinct by operation sequence, faults and shapes")
    measure = "hash of the file operations performed, the faults and how the process ended"
    real = ["H5ScenarioGenerator and configuration classes, Scenario loader, h5py and libhdf5, kernel file system"]
    stub = ["the C library's file calls below the scratch directory (numbered, failing, interleaved)", "process death (exit at an operation; completed operations stay visible)", "power loss (files changed since their last sync are damaged)"]
    assumptions = ["a process death loses nothing that was already handed to the kernel; a power loss may lose whatever was not synced", "a rename within a directory is atomic and, once performed, survives"]
    tiers = {"quick": dict(cases=900, wall=60), "thorough": dict(cases=30000, wall=1500)}
    _ref = {}

    def gen(self, rng, i, tier):
        case = dict(shape=rng.randrange(6), existing=rng.random() < 0.75, suffix=rng.choice([".h5", ".h5", ".h5", "", ".txt"]))
        kind = rng.choice(["crash", "crash", "crash", "torn", "errno", "errno", "capacity", "value", "short", "eintr", "signal", "power", "power", "two", "two", "reader", "none"])
        case["kind"] = kind
        case["at"] = rng.random()
        case["again"] = kind not in ("two", "reader", "none", "value") and rng.random() < 0.4
        if kind == "errno":
            case["errno"] = rng.choice(["ENOSPC", "EIO", "EDQUOT"])
        if kind in ("short", "eintr"):
            case["more"] = [rng.random() for _ in range(3)]
        if kind == "value":
            case["where"] = rng.choice(["plane", "light", "heliostat"])
        if kind == "two":
            case["seed"] = rng.randrange(10 ** 6)
            case["kill"] = rng.choice([None, None, [rng.randrange(2), rng.random()]])
        return case

    def reference(self, case, seed):
        """Digest, operation count and size of an undisturbed generation of the scenario."""
        key = (case["shape"], seed)
        if key not in self._ref:
            with disk.Scratch() as d:
                p = pathlib.Path(d, "ref.h5")
                r = disk.run(lambda: world.write_file(spec_of(seed, case), p), d)
                dig = content(p)
                if r.outcome != "ok" or dig is None:
                    return None, r.outcome, r.error
                self._ref[key] = (dig, len(r.ops), os.path.getsize(p))
        return self._ref[key]

    def run(self, case):
        out = Out()
        new = self.reference(case, NEW)
        old = self.reference(case, OLD)
        if new[0] is None or old[0] is None:
            return out.fail("generation", f"an undisturbed generation does not give a readable scenario: {new[1:]} {old[1:]}")
        n = max(new[1], 1)
        kind = case["kind"]
        out.stats["kind:" + kind] += 1
        with disk.Scratch() as d:
            path = pathlib.Path(d, "plant.h5")
            asked = pathlib.Path(d, "plant" + case["suffix"])
            if case["existing"]:
                world.write_file(spec_of(OLD, case), path)
                keep = pathlib.Path(d).parent / "nothing"
                assert not keep.exists()
            before = sorted(os.listdir(d))
            allowed = {old[0]: "old", new[0]: "new"}
            what = f"{kind} at {case['at']:.3f} of {n} operations, {'over an existing scenario' if case['existing'] else 'to a new path'}"

            def judge(res, require=None):
                if res.error:
                    res.error = (res.error[0], res.error[1].split("(")[0].split("'")[0][:80])
                if not path.exists():
                    state = "missing"
                else:
                    state = allowed.get(content(path), "damaged")
                if state == "damaged" or (state == "missing" and case["existing"]):
                    return out.fail("atomicity", f"{what}: process ended {res.outcome} {res.error or ''}, the scenario at the path is {state}")
                if res.outcome == "ok" and state != "new" and require is None:
                    return out.fail("silent", f"{what}: generation reported success but the scenario at the path is {state}")
                if res.outcome == "error":
                    if state == "new" and new[0] != old[0] and kind not in ("signal", "errno", "capacity"):
                        return out.fail("atomicity", f"{what}: generation raised {res.error} but replaced the scenario")
                    left = [x for x in os.listdir(d) if x not in before and x != "plant.h5"]
                    if left:
                        return out.fail("leftover", f"{what}: generation raised {res.error} and left {left} behind")
                return None

            if kind == "two":
                self.two(case, d, path, asked, allowed, out, what)
                return out
            faults, capacity = [], None
            op = int(case["at"] * (n + 2))
            if kind in ("crash", "torn", "signal"):
                faults = [dict(op=op, kind=kind)]
            elif kind == "power":
                faults = [dict(op=op, kind=random.Random(f"{case['at']}").choice(["crash", "crash", "torn"]))]
            elif kind == "errno":
                faults = [dict(op=op, kind="errno", errno=case["errno"])]
            elif kind in ("short", "eintr"):
                faults = [dict(op=int(x * n), kind=kind) for x in [case["at"]] + case["more"]]
            elif kind == "capacity":
                capacity = int(case["at"] * new[2] * 1.1)

            def body():
                cfg = world.configs(spec_of(NEW, case))
                if kind == "value":
                    cfg = poison(cfg, case["where"])
                H5ScenarioGenerator(file_path=asked, **cfg).generate_scenario()

            held = h5py.File(path, "r") if kind == "reader" and case["existing"] else None
            if kind == "power":
                res, lost = disk.power_loss(body, d, faults, random.Random(f"power:{case['at']}"))
                for how in lost:
                    out.stats["unsynced:" + how] += 1
            else:
                res = disk.run(body, d, faults, capacity)
            out.stats["fault:" + kind] += 1 if res.fired or res.outcome == "crash" or kind in ("value", "reader", "power") else 0
            out.stats["ended:" + res.outcome] += 1
            out.nontrivial = bool(res.fired or res.outcome != "ok" or kind in ("value", "reader", "power"))
            out.sig = f"{case['shape']}:{case['existing']}:{kind}:{op}:{hashlib.sha256(res.ops.encode()).hexdigest()[:8]}:{res.outcome}"
            if held is not None:
                with held:
                    try:
                        sc = Scenario.load_scenario_from_hdf5(held, number_of_surface_points_per_facet=torch.tensor([2, 2]), device=world.DEV)
                        got = sc.light_sources.light_source_list[0].number_of_rays
                        want = spec_of(OLD, case)["rays"]
                        if got != want:
                            return out.fail("reader", f"a reader that opened the old scenario before it was regenerated reads {got} rays instead of {want}")
                    except Exception as e:
                        return out.fail("reader", f"a reader that opened the old scenario before it was regenerated fails: {type(e).__name__}: {str(e)[:150]}")
                if res.outcome == "error":   # refusing to replace a scenario in use is allowed
                    judge(res)
                    return out
            if kind in ("none", "short", "eintr") and res.outcome != "ok":
                return out.fail("transparent", f"{what}: a {kind} operation, which loses nothing, makes the generation end with {res.outcome} {res.error}")
            if kind == "value" and res.outcome == "ok":
                out.stats["value_accepted"] += 1
                missing = sorted(stored(spec_of(NEW, case), d) - names(path))
                if missing:
                    return out.fail("silent", f"{what}: generation reported success without storing {missing[:3]}")
                return out
            if judge(res) is None and case.get("again"):
                third = self.reference(case, OTHER)
                res = disk.run(lambda: H5ScenarioGenerator(file_path=asked, **world.configs(spec_of(OTHER, case))).generate_scenario(), d)
                out.stats["regenerated_after_fault"] += 1
                if res.outcome != "ok" or not path.exists() or content(path) != third[0]:
                    return out.fail("recovery", f"{what}: generating the scenario once more, undisturbed, ended {res.outcome} {res.error and res.error[0]} and did not leave the new scenario at the path")
        return out

    def two(self, case, d, path, asked, allowed, out, what):
        """Two generators of the same path, interleaved operation by operation."""
        other = self.reference(case, OTHER)
        if other[0] is None:
            return out.fail("generation", f"an undisturbed generation does not give a readable scenario: {other[1:]}")
        allowed = dict(allowed, **{other[0]: "other"})
        rng = random.Random(case["seed"])
        kids = [disk.Child(lambda s=s: H5ScenarioGenerator(file_path=asked, **world.configs(spec_of(s, case))).generate_scenario(), d, tokens=True) for s in (NEW, OTHER)]
        counts, alive, trace = [0, 0], [0, 1], []
        pend = [k.next_op() for k in kids]
        looks = {int(x) for x in [rng.random() * 120 for _ in range(3)]}
        step = 0
        while True:
            alive = [i for i in (0, 1) if pend[i] is not None]
            if not alive:
                break
            i = rng.choice(alive)
            kill = case["kill"] and case["kill"][0] == i and counts[i] == int(case["kill"][1] * 80)
            trace.append(f"{i}{pend[i]}")
            kids[i].go(kill=bool(kill))
            counts[i] += 1
            pend[i] = kids[i].next_op()
            step += 1
            if step in looks:
                st = allowed.get(content(path), "damaged") if path.exists() else "missing"
                if st == "damaged" or (st == "missing" and case["existing"]):
                    for j in (0, 1):
                        while pend[j] is not None:
                            kids[j].go(kill=True)
                            pend[j] = kids[j].next_op()
                    [k.wait() for k in kids]
                    return out.fail("atomicity", f"two generators of one path: after {step} file operations the scenario at the path is {st}")
        res = [k.wait() for k in kids]
        out.nontrivial = True
        out.stats["interleaved_operations"] += step
        out.stats["fault:second_generator"] += 1
        if case["kill"] and any(r.outcome == "crash" for r in res):
            out.stats["fault:crash"] += 1
        out.trace = trace[-300:]
        out.sig = f"two:{case['shape']}:{hashlib.sha256(''.join(trace).encode()).hexdigest()[:12]}"
        st = allowed.get(content(path), "damaged") if path.exists() else "missing"
        if st == "damaged" or (st == "missing" and (case["existing"] or any(r.outcome == "ok" for r in res))):
            return out.fail("atomicity", f"two generators of one path ended {[r.outcome for r in res]} {[r.error for r in res]}: the scenario at the path is {st}")
        if all(r.outcome == "ok" for r in res) and st == "old":
            return out.fail("silent", "two generators reported success but the old scenario is still at the path")
        return None

    def shrink(self, case):
        if case["suffix"] != ".h5":
            yield dict(case, suffix=".h5")
        if case["shape"]:
            yield dict(case, shape=0)
        if case.get("more"):
            yield dict(case, more=[])
        if case.get("again"):
            yield dict(case, again=False)
        if case.get("kill"):
            yield dict(case, kill=None)
        if case["existing"]:
            yield dict(case, existing=False)


CHECK = Check()
