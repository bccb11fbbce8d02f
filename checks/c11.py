"""C11: measured samples are selected reproducibly, loaded completely and stay together, or an error is raised."""
import hashlib
import json
import math
import os
import pathlib
import random

import numpy as np
import torch
from PIL import Image

from dst import disk, world
from dst.runner import Out

from artist.io import paint_scenario_parser
from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from artist.optim import training

DEV = torch.device("cpu")
METHODS = ("HeliOS", "UTIS")
A, E2 = 6378137.0, (6378137.0 ** 2 - 6356752.314245 ** 2) / 6378137.0 ** 2
PLANT = (50.913421122592574, 6.387824755874856, 87.0)
SPEC = world.default_spec(groups=[{"act": "linear", "n": 3}, {"act": "ideal", "n": 2}], planar=2, cyl=1, rays=1)
NAMES = [n for g in world.heliostat_names(SPEC) for n in g]


# ---------------------------------------------------------------- measurements with a number each
def enu(lat, lon, alt):
    la0, lo0, al0 = math.radians(PLANT[0]), math.radians(PLANT[1]), PLANT[2]
    s = math.sin(la0)
    rn = A / math.sqrt(1 - E2 * s * s)
    rm = A * (1 - E2) / (1 - E2 * s * s) ** 1.5
    return [(math.radians(lon) - lo0) * rn * math.cos(la0), (math.radians(lat) - la0) * rm, alt - al0]


def sun_from(s):
    return -80.0 + 1.5 * (s % 107), 12.0 + 0.37 * (s % 181)


def motors(s):
    return [1000.0 + 17.0 * s, 40000.0 - 13.0 * s]


def focal(s, method):
    k = 1.0 if method == "UTIS" else -1.0
    return [PLANT[0] + 2e-6 * s * k - 1e-5, PLANT[1] + 3e-6 * s * k, 120.0 + 0.25 * s + 40.0 * k]


def pattern(s, w, h):
    return np.random.RandomState(1000 + s).randint(0, 256, size=(h, w), dtype=np.uint8)


def slope(s, w, h):
    """A grey ramp in a direction and of a level that belong to measurement s; resizing leaves it nearly unchanged."""
    u, v = np.meshgrid((np.arange(w) + 0.5) / w - 0.5, (np.arange(h) + 0.5) / h - 0.5)
    return 60 + (s * 7) % 136 + (50 if s & 1 else -50) * u + (50 if s & 2 else -30) * v


def other_size(s, size):
    """The size of an image that has to be resized: larger, or the right number of pixels in the wrong shape."""
    w, h = size
    return (h, w) if s % 3 == 0 and w != h else (w + 2 + s % 3, h + 3 + s % 4)


def properties(s, targets, drop=None):
    az, el = sun_from(s)
    d = {"motor_position": {"axis_1_motor_position": motors(s)[0], "axis_2_motor_position": motors(s)[1]}, "target_name": targets[s % len(targets)], "sun_elevation": el, "sun_azimuth": az,
         "focal_spot": {m: focal(s, m) for m in METHODS}}
    if drop == "target_unknown":
        d["target_name"] = "nowhere"
    elif drop in d:
        del d[drop]
    elif drop in METHODS:
        del d["focal_spot"][drop]
    return d


def write_png(path, s, size, native, rgb):
    w, h = size
    a = pattern(s, w, h) if native else np.rint(slope(s, *other_size(s, size))).astype(np.uint8)
    im = Image.fromarray(a, mode="L")
    (im.convert("RGB") if rgb else im).save(path)


def flux_of(s, size, native):
    w, h = size
    return (pattern(s, w, h).astype(np.float64) if native else slope(s, w, h)) / 255.0


# ---------------------------------------------------------------- oracle
def wrong_row(got, k, s, size, native, target_index, targets, method):
    """Which of the values in row k are not those of measurement s."""
    az, el = (math.radians(v) for v in sun_from(s))
    want = dict(flux=flux_of(s, size, native), focal=np.array(enu(*focal(s, method)) + [1.0]), motors=np.array(motors(s)), target=np.array(target_index[targets[s % len(targets)]]),
                rays=-np.array([math.cos(el) * math.sin(az), -math.cos(el) * math.cos(az), math.sin(el), 0.0]))
    for name, w in want.items():
        tol = dict(flux=0.035 if not native else 1e-5, focal=2e-2, motors=0.5, target=0, rays=1e-5)[name]
        if got[name][k].shape != w.shape or not np.all(np.abs(got[name][k] - w) <= tol):
            return name
    return None


def identify(got, k, ids):
    best = [s for s in ids if abs(got["motors"][k][0] - motors(s)[0]) < 0.5]
    return best[0] if best else None


def rows_follow(got, mask, names, order, case, native, target_index, targets, exact):
    """First deviation of the loaded rows from the listed measurements of every heliostat, or None."""
    sizes = {k: len(v) for k, v in got.items()}
    if len(set(sizes.values())) != 1:
        return f"numbers of loaded samples differ: {sorted(sizes.items())}"
    if len(mask) != len(names) or int(sum(mask)) != sizes["flux"]:
        return f"mask {list(map(int, mask))} does not fit {sizes['flux']} samples"
    k = 0
    for name, m in zip(names, mask):
        ids = order.get(name, [])
        if exact and int(m) != len(ids):
            return f"{int(m)} samples for heliostat {name} instead of {len(ids)}"
        for j in range(int(m)):
            s = ids[j] if exact else identify(got, k, ids)
            if s is None:
                return f"a sample of heliostat {name} is none of its measurements"
            bad = wrong_row(got, k, s, case["size"], native[s], target_index, targets, case["method"])
            if bad:
                return f"sample {j} of heliostat {name}: {bad} is not that of its measurement"
            k += 1
    return None


class Listing:
    """os.scandir and os.listdir in a drawn order, with files that vanish after they were listed."""

    def __init__(self, root, order, vanish=None, fail_at=None):
        self.root, self.rng, self.vanish, self.fail_at, self.calls = str(root), random.Random(f"dir:{order}") if order else None, vanish, fail_at, 0

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        outer = self

        class Scan:
            def __init__(self, items):
                self.items = iter(items)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def close(self):
                return None

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.items)

        def ours(path):
            return str(path).startswith(outer.root)

        def mix(items, key, path):
            items = sorted(items, key=key)
            outer.calls += 1
            if outer.fail_at is not None and outer.calls - 1 == outer.fail_at:
                raise OSError(5, "Input/output error", str(path))
            if outer.rng:
                outer.rng.shuffle(items)
            if outer.vanish:
                for p in outer.vanish:
                    pathlib.Path(p).unlink(missing_ok=True)
            return items

        def scandir(path="."):
            it = outer.scandir(path)
            return Scan(mix(list(it), lambda e: e.name, path)) if ours(path) else it

        def listdir(path="."):
            names = outer.listdir(path)
            return mix(names, lambda n: n, path) if ours(path) else names
        os.scandir, os.listdir = scandir, listdir
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir


def to_np(res):
    flux, foc, rays, mot, mask, tgt = res
    f = lambda t: t.detach().cpu().numpy().astype(np.float64)
    return dict(flux=f(flux), focal=f(foc), rays=f(rays), motors=f(mot), target=f(tgt)), [int(x) for x in mask]


def split_np(mask, data, fraction):
    t = lambda a, d=torch.float32: torch.tensor(a, dtype=d)
    sp = training.train_test_split(active_heliostats_mask=t(mask, torch.int32), flux_measured=t(data["flux"]), focal_spots_measured=t(data["focal"]), incident_ray_directions=t(data["rays"]),
                                   motor_positions=t(data["motors"]), target_area_indices=t(data["target"], torch.long), test_fraction=fraction, device=DEV)
    parts = {}
    for p in ("train", "test"):
        g = lambda n: getattr(sp, f"{n}_{p}")
        parts[p] = to_np((g("flux_measured"), g("focal_spots_measured"), g("incident_ray_directions"), g("motor_positions"), g("active_heliostats_mask"), g("target_area_indices")))
    return parts


class Check:
    id = "C11"
    level = "fault_injection"
    rule = "a run loads measured samples after a fault or in an order the file system chose"
    measure = "distinct (mapping shape, file defect or fault and its operation, outcome, order of file operations)"
    real = ["build_heliostat_data_mapping", "PaintCalibrationDataParser and load_flux_from_png", "train_test_split", "torchvision, PIL and json decoding", "the file system"]
    stub = ["order and failures of directory listings", "failing, short, interrupted and early ending reads (native/iosim.c)"]
    assumptions = ["changed bytes in complete files cannot be noticed", "the images are 8-bit grey; conversion of coloured images is not judged", "sample_limit 0 is treated as no limit (documented as None)"]
    tiers = {"quick": dict(cases=420, wall=60), "thorough": dict(cases=6000, wall=1500)}

    # ------------------------------------------------------------ cases
    def gen(self, rng, i, tier):
        case = dict(seed=rng.randrange(1 << 30), kind=rng.choice(["load", "load", "tree"]), method=rng.choice(METHODS), size=rng.choice([[8, 6], [6, 9], [7, 7]]), limit=rng.choice([None, None, 1, 2, 3, 9]),
                    group=rng.randrange(2), fraction=rng.choice([0.25, 0.25, 0.5, 0.1, 0.4]), resized=rng.choice([0.0, 0.5, 1.0]), rgb=rng.random() < 0.2,
                    fault=rng.choice(["none", "none", "none", "EIO", "eintr", "short", "eof", "truncate", "missing", "key"]), at=rng.random(), also=rng.random())
        case["key"] = rng.choice(["motor_position", "target_name", "sun_elevation", "sun_azimuth", "focal_spot", "HeliOS", "UTIS", "target_unknown"])
        if case["kind"] == "load":
            same = rng.random() < 0.5
            n = rng.randint(1, 5)
            entries, s = [], 0
            for name in rng.sample(NAMES + ["X900"], rng.randint(1, 6)):
                c = n if same else rng.randint(0, 5)
                entries.append([name, list(range(s, s + c))])
                s += c
            if rng.random() < 0.25:   # a heliostat listed twice
                name = rng.choice(entries)[0]
                c = rng.randint(1, 3)
                entries.append([name, list(range(s, s + c))])
                s += c
            for e in entries:
                rng.shuffle(e[1])
            rng.shuffle(entries)
            case.update(entries=entries, uneven=[rng.randrange(len(entries)), rng.choice(["flux", "props"])] if rng.random() < 0.15 else None)
        else:
            names = rng.sample(NAMES, rng.randint(1, 5))
            case.update(names=names, missing_dirs=[n for n in names if rng.random() < 0.1], have={n: sorted(rng.sample(range(30 * k, 30 * k + 30), rng.randint(0, 9))) for k, n in enumerate(names)},
                        want=rng.choice([1, 2, 3, 4, 8]), randomize=rng.random() < 0.7, shuffle_seed=rng.randrange(5), orders=[0] + [rng.randrange(1, 1 << 30) for _ in range(2)],
                        no_image=rng.random() < 0.4, vanish=rng.random() < 0.15, list_error=rng.random() < 0.1)
            if case["fault"] in ("missing",):
                case["fault"] = "none"
        return case

    # ------------------------------------------------------------ one run
    def run(self, case):
        out = Out()
        with disk.Scratch() as d:
            (self.run_load if case["kind"] == "load" else self.run_tree)(case, pathlib.Path(d), out)
        out.stats[f"kind:{case['kind']}"] += 1
        return out

    def site(self):
        sc = world.fresh(SPEC)
        return sc, dict(sc.solar_tower.target_name_to_index), sorted(sc.solar_tower.target_name_to_index)

    def read(self, fn, case, d, files, out):
        faults = []
        if case["fault"] in ("truncate", "missing") and files:
            p = files[int(case["at"] * len(files))]
            if case["fault"] == "missing":
                p.unlink()
            else:
                raw = p.read_bytes()
                # the last chunk of a PNG and the last brace of a JSON file are part of the record
                p.write_bytes(raw[:int(case["also"] * (len(raw) - (13 if p.suffix == ".png" else 1)))])
        elif case["fault"] in ("EIO", "eintr", "short", "eof"):
            clean = disk.run(fn, str(d))
            if clean.outcome != "ok":
                return clean
            where = [k for k, c in enumerate(clean.ops) if c == "r" or (c == "o" and case["fault"] == "EIO")]
            if where:
                k = where[int(case["at"] * len(where))]
                faults.append(dict(op=k, kind={"EIO": "errno"}.get(case["fault"], case["fault"])))
        res = disk.run(fn, str(d), faults)
        out.stats["fault:" + case["fault"]] += max(res.fired, 1 if case["fault"] in ("truncate", "missing", "key") else 0)
        shape = {k: v for k, v in case.items() if k not in ("seed", "at", "also")}
        out.sig = hashlib.sha1(repr((shape, res.outcome, res.ops, faults)).encode()).hexdigest()[:16]
        out.nontrivial = bool(res.fired) or case["fault"] in ("truncate", "missing", "key") or case["kind"] == "tree"
        return res

    def finish(self, res, out, what, may_fail, judge):
        if res.outcome in ("crash", "signal"):
            return out.fail("died", f"{what}: the loading process died")
        if res.outcome == "error":
            if not may_fail:
                err = (res.error[0], res.error[1].split("/")[0].split("(")[0][:80])
                out.fail("refused", f"{what}: complete measurements were refused: {err}")
            return None
        diff = judge(res.value)
        if diff:
            out.fail("wrong", f"{what}: loaded without an error, but {diff}")
        return None

    def run_load(self, case, d, out):
        sc, index, targets = self.site()
        rng = random.Random(case["seed"])
        native, mapping, files = {}, [], []
        hit = [s for e in case["entries"] for s in e[1]]
        broken = hit[int(case["at"] * len(hit))] if hit and case["fault"] == "key" else None
        for name, ids in case["entries"]:
            props, pngs = [], []
            for s in ids:
                native[s] = rng.random() >= case["resized"]
                p, q = d / f"{s}-calibration-properties.json", d / f"{s}-flux.png"
                p.write_text(json.dumps(properties(s, targets, case["key"] if s == broken else None)))
                write_png(q, s, case["size"], native[s], case["rgb"])
                props.append(p)
                pngs.append(q)
                files += [p, q]
            mapping.append((name, props, pngs))
        if case["uneven"]:
            name, props, pngs = mapping[case["uneven"][0]]
            short = pngs if case["uneven"][1] == "flux" else props
            if short:
                short.pop(rng.randrange(len(short)))
        group = sc.heliostat_field.heliostat_groups[case["group"]]
        parser = PaintCalibrationDataParser(sample_limit=case["limit"], centroid_extraction_method=case["method"])

        def fn():
            return to_np(parser.parse_data_for_reconstruction(heliostat_data_mapping=mapping, heliostat_group=group, scenario=sc, bitmap_resolution=torch.tensor(case["size"]), device=DEV))
        res = self.read(fn, case, d, files, out)
        order, twice = {}, False
        for name, ids in case["entries"]:
            twice |= name in order
            order.setdefault(name, []).extend(ids)
        exact = not case["uneven"] and not (twice and case["limit"])
        if exact and case["limit"]:
            order = {n: ids[:case["limit"]] for n, ids in order.items()}

        def judge(value):
            got, mask = value
            bad = rows_follow(got, mask, group.names, order, case, native, index, targets, exact)
            if bad is None and case["limit"] and not twice and any(m > case["limit"] for m in mask):
                bad = f"more than {case['limit']} samples per heliostat"
            return bad or self.judge_split(case, got, mask, group.names, native, index, targets, out)
        what = f"loading with {case['fault']}" + (" and unequal numbers of files" if case["uneven"] else "")
        self.finish(res, out, what, case["fault"] in ("EIO", "eof", "truncate", "missing", "key") or bool(case["uneven"]), judge)

    def judge_split(self, case, got, mask, names, native, index, targets, out):
        """Every training and test sample still belongs to the heliostat the masks give it to."""
        counts = [m for m in mask if m]
        if not counts:
            return None
        everyone = list(native)
        ids = [identify(got, k, everyone) for k in range(len(got["flux"]))]
        out.stats["splits"] += 1
        try:
            parts = split_np(mask, got, case["fraction"])
        except Exception as e:
            if len(set(counts)) == 1 and counts[0] > 1:
                return f"equal numbers of samples cannot be split: {type(e).__name__}"
            out.stats["splits_refused"] += 1
            return None
        k, blocks = 0, {}
        for name, m in zip(names, mask):
            blocks[name] = ids[k:k + m]
            k += m
        train = {n: b[:t] for (n, b), t in zip(blocks.items(), parts["train"][1])}
        test = {n: (b[-t:] if t else []) for (n, b), t in zip(blocks.items(), parts["test"][1])}
        for n, b in blocks.items():
            if len(train[n]) + len(test[n]) != len(b):
                return f"{len(train[n])} training and {len(test[n])} test samples of heliostat {n} out of {len(b)}"
            if b and not (1 <= len(test[n]) <= max(1, len(b) * case["fraction"] + 1e-9)):
                return f"{len(test[n])} of {len(b)} samples of heliostat {n} for testing with a fraction of {case['fraction']}"
        for part, want in (("train", train), ("test", test)):
            bad = rows_follow(parts[part][0], parts[part][1], names, want, case, native, index, targets, True)
            if bad:
                return f"after splitting ({part}): {bad}"
        return None

    def run_tree(self, case, d, out):
        sc, index, targets = self.site()
        rng = random.Random(case["seed"])
        native, paired = {}, {}
        base = d / "data"
        base.mkdir()
        (d / "elsewhere").mkdir()
        files = []
        for name in case["names"]:
            paired[name] = []
            if name in case["missing_dirs"]:
                continue
            c = base / name / "Calibration"
            c.mkdir(parents=True)
            for s in case["have"][name]:
                native[s] = rng.random() >= case["resized"]
                p, q = c / f"{s}-calibration-properties.json", c / f"{s}-flux.png"
                p.write_text(json.dumps(properties(s, targets)))
                (c / f"{s}-flux-centered.png").write_bytes(b"not the requested variant")
                files.append(p)
                if case["no_image"] and rng.random() < 0.4:
                    continue
                write_png(q, s, case["size"], native[s], case["rgb"])
                files.append(q)
                paired[name].append(s)
        drawn = [p for p in files if rng.random() < 0.3]
        gone = drawn[:1] if case["vanish"] else None

        def build(order, fail_at=None, vanish=None, names=None):
            random.seed(order)
            before = random.getstate()
            with Listing(base, order, vanish, fail_at):
                m = paint_scenario_parser.build_heliostat_data_mapping(str(base), names or case["names"], case["want"], "flux", randomize=case["randomize"], seed=case["shuffle_seed"])
            if random.getstate() != before:
                raise AssertionError("the selection of samples changes the global random state")
            return m

        def shape(m):
            return [[n, [p.name for p in a], [q.name for q in b]] for n, a, b in m]
        maps = []
        try:
            for o in case["orders"]:
                maps.append(build(o))
            alone = [build(3, names=[n]) for n in case["names"]]
        except Exception as e:
            out.sig = "tree-error"
            return out.fail("refused", f"selecting samples: {type(e).__name__}: {str(e).split('/')[0][:80]}")
        out.stats["listings"] += len(maps) + len(alone)
        for m in maps[1:]:
            if shape(m) != shape(maps[0]):
                return out.fail("order", "the selected samples depend on the order in which the file system lists them")
        if sorted(map(str, sum(map(shape, alone), []))) != sorted(map(str, shape(maps[0]))):
            return out.fail("order", "the selected samples of a heliostat depend on the other heliostats")
        bad = self.judge_mapping(case, maps[0], paired, exact=True)
        if bad:
            return out.fail("selection", bad)
        if case["list_error"]:
            try:
                m = build(case["orders"][1], fail_at=rng.randrange(len(case["names"])))
            except OSError:
                m = None
            out.stats["fault:listing"] += 1
            # a directory that cannot be listed may count as empty (a warning is logged), never as holding fewer measurements
            whole = m and {**paired, **{n: [] for n in paired if n not in [e[0] for e in m]}}
            bad = m is not None and self.judge_mapping(case, m, whole or {n: [] for n in paired}, exact=True)
            if bad:
                return out.fail("selection", f"after a failed directory listing: {bad}")
        chosen = maps[0]
        if gone:
            try:
                chosen = build(case["orders"][1], vanish=gone)
            except OSError:
                chosen = None
            out.stats["fault:vanish"] += 1
            bad = chosen is not None and self.judge_mapping(case, chosen, paired, exact=False)
            if bad:
                return out.fail("selection", f"while a file vanishes: {bad}")
        out.sig = hashlib.sha1(repr((shape(maps[0]), case["fault"])).encode()).hexdigest()[:16]
        out.nontrivial = True
        if not chosen:
            return None
        group = sc.heliostat_field.heliostat_groups[case["group"]]
        parser = PaintCalibrationDataParser(sample_limit=case["limit"], centroid_extraction_method=case["method"])
        order = {n: [int(p.name.split("-")[0]) for p in a][:case["limit"] or None] for n, a, b in chosen}
        if case["fault"] == "key":
            case = {**case, "fault": "none"}

        def fn():
            return to_np(parser.parse_data_for_reconstruction(heliostat_data_mapping=chosen, heliostat_group=group, scenario=sc, bitmap_resolution=torch.tensor(case["size"]), device=DEV))
        res = self.read(fn, case, d, [p for p in files if p.exists()], out)

        def judge(value):
            got, mask = value
            return rows_follow(got, mask, group.names, order, case, native, index, targets, True) or self.judge_split(case, got, mask, group.names, native, index, targets, out)
        return self.finish(res, out, f"loading selected samples with {case['fault']}", case["fault"] in ("EIO", "eof", "truncate") or bool(gone), judge)

    def judge_mapping(self, case, m, paired, exact):
        seen = []
        for n, props, images in m:
            if n in seen or n not in paired:
                return f"heliostat {n} appears unexpectedly"
            seen.append(n)
            a, b = [[int(p.name.split("-")[0]) for p in x] for x in (props, images)]
            if a != b:
                return f"calibration files and images of heliostat {n} belong to different measurements"
            if len(set(a)) != len(a) or not set(a) <= set(paired[n]):
                return f"samples of heliostat {n} are repeated or not available"
            if len(a) > case["want"] or (exact and len(a) != min(case["want"], len(paired[n]))):
                return f"{len(a)} samples of heliostat {n} instead of {min(case['want'], len(paired[n]))}"
            if any(n not in p.parts for p in [*props, *images]):
                return f"samples of heliostat {n} are files of another one"
        if exact and seen != [n for n in case["names"] if paired[n]]:
            return f"heliostats {seen} selected instead of {[n for n in case['names'] if paired[n]]}"
        return None

    def shrink(self, case):
        for key, v in (("resized", 0.0), ("rgb", False), ("limit", None), ("size", [7, 7]), ("fraction", 0.25)):
            if case[key] != v:
                yield {**case, key: v}
        if case["kind"] == "load":
            for k in range(len(case["entries"])):
                if len(case["entries"]) > 1 and not case["uneven"]:
                    yield {**case, "entries": case["entries"][:k] + case["entries"][k + 1:]}
            if case["uneven"]:
                yield {**case, "uneven": None}
        else:
            for key, v in (("vanish", False), ("list_error", False), ("no_image", False), ("randomize", False), ("want", 1)):
                if case[key] != v:
                    yield {**case, key: v}
            for n in case["names"]:
                if len(case["names"]) > 1:
                    yield {**case, "names": [x for x in case["names"] if x != n], "missing_dirs": [x for x in case["missing_dirs"] if x != n]}
                for s in case["have"][n]:
                    yield {**case, "have": {**case["have"], n: [x for x in case["have"][n] if x != s]}}
        if case["fault"] in ("short", "eintr"):
            yield {**case, "fault": "none"}


CHECK = Check()
