"""C10: reading input files gives exactly the data they hold, or an error, whatever the disk does."""
import hashlib
import json
import math
import os
import pathlib
import random
import struct

import h5py
import numpy as np
import torch

from dst import disk, world
from dst.runner import Out

from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid
from artist.io import paint_scenario_parser, stral_scenario_parser
from artist.scenario import H5ScenarioGenerator, Scenario
from artist.util import config as C
from artist.util import constants

DEV = torch.device("cpu")
TRANS = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e", "second_joint_translation_n", "second_joint_translation_u",
         "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
ROT = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
A_E2 = (6378137.0, (6378137.0 ** 2 - 6356752.314245 ** 2) / 6378137.0 ** 2)


# ---------------------------------------------------------------- what a loaded scenario must contain
def arr(x):
    return np.asarray(x.detach().cpu() if torch.is_tensor(x) else x, dtype=np.float64)


def expect_actuators(lst):
    kind = lst[0].actuator_type
    lst = sorted(lst, key=lambda a: a.key)
    base = [[{"linear": 0, "ideal": 1}[a.actuator_type], 1 if a.clockwise_axis_movement else 0, a.min_max_motor_positions[0], a.min_max_motor_positions[1]] for a in lst]
    if kind == "ideal":
        return kind, np.array(base, dtype=np.float64).T, np.zeros((0,))
    val = lambda a, k: 0.0 if a.parameters is None or getattr(a.parameters, k) is None else float(getattr(a.parameters, k))
    non = np.array([b + [val(a, "increment"), val(a, "offset"), val(a, "pivot_radius")] for a, b in zip(lst, base)], dtype=np.float64).T
    opt = np.array([[val(a, "initial_angle"), val(a, "initial_stroke_length")] for a in lst], dtype=np.float64).T
    opt[0, 0] -= math.pi / 2   # horizontal to upright reference of the first axis
    return kind, non, opt


def expect_heliostat(h, proto):
    surf = h.surface or proto.surface_prototype
    kin = h.kinematics or proto.kinematics_prototype
    act = h.actuators or proto.actuators_prototype
    facets = sorted(surf.facet_list, key=lambda f: f.facet_key)
    kind, non, opt = expect_actuators(act.actuator_list)
    d = lambda k: 0.0 if kin.deviations is None or getattr(kin.deviations, k) is None else float(getattr(kin.deviations, k))
    return dict(kind=kind, position=arr(h.position), control_points=np.stack([arr(f.control_points) for f in facets]), canting=np.stack([arr(f.canting) for f in facets]),
                facet_translations=np.stack([arr(f.translation_vector) for f in facets]), degrees=arr(facets[0].degrees), initial_orientation=arr(kin.initial_orientation),
                translation_deviations=np.array([d(k) for k in TRANS]), rotation_deviations=np.array([d(k) for k in ROT]), actuators_non_optimizable=non, actuators_optimizable=opt)


def expectation(cfg):
    return dict(
        plant=arr(cfg["power_plant_config"].power_plant_position),
        planar={t.target_area_key: np.concatenate([arr(t.center), arr(t.normal_vector), [float(t.plane_e), float(t.plane_u)]]) for t in cfg["target_area_list_planar_config"].target_area_list},
        cyl={t.target_area_key: np.concatenate([arr(t.center), arr(t.normal), arr(t.axis), [float(t.radius), float(t.height), float(t.opening_angle)]]) for t in cfg["target_area_list_cylindrical_config"].target_area_list},
        lights=[(int(l.number_of_rays), float(l.covariance)) for l in sorted(cfg["light_source_list_config"].light_source_list, key=lambda l: l.light_source_key)],
        heliostats={h.name: expect_heliostat(h, cfg["prototype_config"]) for h in cfg["heliostat_list_config"].heliostat_list})


def observed(path, points):
    """Load the scenario and report everything it contains."""
    with h5py.File(path, "r") as f:
        sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor([points, points]), device=DEV)
    stored = int(Scenario.get_number_of_heliostat_groups_from_hdf5(pathlib.Path(path)))
    pl, cy = sc.solar_tower.target_areas
    hs, kinds, drift = {}, [], 0.0
    for g in sc.heliostat_field.heliostat_groups:
        act = g.kinematics.actuators
        kinds.append(len(g.names))
        for i, n in enumerate(g.names):
            opt = act.optimizable_parameters
            hs.setdefault(n, []).append(dict(
                kind={0: "linear", 1: "ideal"}.get(int(act.non_optimizable_parameters[i, 0, 0])), position=arr(g.positions[i]), control_points=arr(g.nurbs_control_points[i]), canting=arr(g.canting[i]),
                facet_translations=arr(g.facet_translations[i]), degrees=arr(g.nurbs_degrees), initial_orientation=arr(g.initial_orientations[i]),
                translation_deviations=arr(g.kinematics.translation_deviation_parameters[i]), rotation_deviations=arr(g.kinematics.rotation_deviation_parameters[i]),
                actuators_non_optimizable=arr(act.non_optimizable_parameters[i]), actuators_optimizable=arr(opt[i]) if opt.numel() else np.zeros((0,))))
    for g in sc.heliostat_field.heliostat_groups:
        # the loaded surface is the one its control points and degrees describe, with or without canting
        grid = create_nurbs_evaluation_grid(torch.tensor([points, points]), device=DEV).expand(g.number_of_heliostats, g.nurbs_control_points.shape[1], -1, -1)
        nurbs = NURBSSurfaces(degrees=g.nurbs_degrees, control_points=g.nurbs_control_points.detach(), device=DEV)
        away = []
        for canting, moved in ((None, None), (g.canting, g.facet_translations)):
            pts = nurbs.calculate_surface_points_and_normals(evaluation_points=grid, canting=canting, facet_translations=moved, device=DEV)[0].reshape(g.number_of_heliostats, -1, 4)
            away.append((pts - g.surface_points).abs().amax(dim=(1, 2)) if pts.shape == g.surface_points.shape else torch.full((g.number_of_heliostats,), math.inf))
        drift = max(drift, float(torch.minimum(*away).max()))
    index = {}
    for name, k in sc.solar_tower.target_name_to_index.items():
        t, local = sc.solar_tower.index_to_target_area[k]
        index[name] = t.names[local]
    return dict(
        plant=arr(sc.power_plant_position),
        planar={n: np.concatenate([arr(pl.centers[i]), arr(pl.normals[i]), arr(pl.dimensions[i])]) for i, n in enumerate(pl.names)},
        cyl={n: np.concatenate([arr(cy.centers[i]), arr(cy.normals[i]), arr(cy.axes[i]), arr([cy.radii[i], cy.heights[i], cy.opening_angles[i]])]) for i, n in enumerate(cy.names)},
        lights=[(int(l.number_of_rays), float(l.distribution_parameters[constants.light_source_covariance])) for l in sc.light_sources.light_source_list],
        heliostats=hs, groups=len(sc.heliostat_field.heliostat_groups), stored=stored, kinds=kinds, drift=drift, index=index)


def near(a, b, tol):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b))))


def compare(got, want, tol=2e-6, skip=()):
    """First difference between the loaded scenario and what the files say, or None."""
    for kind in ("planar", "cyl"):
        if sorted(got[kind]) != sorted(want[kind]):
            return f"target areas ({kind}) {sorted(got[kind])} instead of {sorted(want[kind])}"
        for n, v in want[kind].items():
            if not near(got[kind][n], v, tol):
                return f"data of target area {n} differ from the input"
    if any(k != v for k, v in got["index"].items()) or sorted(got["index"]) != sorted(list(want["planar"]) + list(want["cyl"])):
        return "the index of target areas does not lead to the areas of that name"
    if not near(got["plant"], want["plant"], 1e-12):
        return "the power plant position differs from the input"
    if "lights" in want and (len(got["lights"]) != len(want["lights"]) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-6 * abs(b[1]) for a, b in zip(got["lights"], want["lights"]))):
        return "the light sources differ from the input"
    if sorted(got["heliostats"]) != sorted(want["heliostats"]) or any(len(v) != 1 for v in got["heliostats"].values()):
        return f"heliostats {sorted(got['heliostats'])} instead of {sorted(want['heliostats'])}"
    for n, w in want["heliostats"].items():
        g = got["heliostats"][n][0]
        for k in w:
            if k in skip:
                continue
            if (k == "kind" and g[k] != w[k]) or (k != "kind" and not near(g[k], w[k], tol)):
                return f"{k} of heliostat {n} differ from the input"
    if got["groups"] != len({w["kind"] for w in want["heliostats"].values()}) or got["stored"] != got["groups"]:
        return f"{got['groups']} heliostat groups loaded, {got['stored']} announced by the file, for {len({w['kind'] for w in want['heliostats'].values()})} kinds of heliostats"
    if got["drift"] > 1e-4:
        return "the surface of a heliostat is not the one its control points and degrees describe"
    return None


# ---------------------------------------------------------------- inputs
def mixed_configs(case):
    """A scenario whose heliostats have individual parameters or use the prototypes, in any mixture."""
    rng = random.Random(f"c10:{case['seed']}")
    spec = world.default_spec(groups=[{"act": a, "n": n} for a, n in case["groups"]], seed=case["seed"], planar=case["planar"], cyl=case["cyl"], facets=case["facets"], cps=case["cps"], cpv=case["cpv"], rays=rng.randint(1, 50), cov=rng.uniform(1e-7, 1e-5))
    cfg = world.configs(spec)
    proto = cfg["prototype_config"]
    for h, own in zip(cfg["heliostat_list_config"].heliostat_list, case["own"]):
        if not own & 1:
            h.surface = None
        if not own & 2:
            h.kinematics = None
        if not own & 4:
            h.actuators = None
        if own & 8:
            h.name = "Z" + h.name if own & 1 else "A" + h.name
        if own & 16 and h.kinematics is not None:
            h.kinematics.deviations = C.KinematicsDeviations(**{k: torch.tensor(rng.uniform(-1e-3, 1e-3)) for k in rng.sample(TRANS + ROT, 4)})
        if own & 32 and h.actuators is not None:
            for a in h.actuators.actuator_list:
                if a.actuator_type == "ideal" or rng.random() < 0.3:
                    a.parameters = None
    # every random value distinct: translations and orientations too
    for kin in [proto.kinematics_prototype] + [h.kinematics for h in cfg["heliostat_list_config"].heliostat_list if h.kinematics]:
        for k in TRANS:
            if getattr(kin.deviations, k) is not None:
                setattr(kin.deviations, k, torch.tensor(rng.uniform(-0.05, 0.05)))
        v = np.array([rng.uniform(-0.2, 0.2), -1.0, rng.uniform(-0.2, 0.2)])
        kin.initial_orientation = torch.tensor(list(v / np.linalg.norm(v)) + [0.0], dtype=torch.float)
    if case["degrees"]:
        # heliostats with linear actuators get other degrees than those with ideal ones
        for h in cfg["heliostat_list_config"].heliostat_list:
            e = h.actuators or proto.actuators_prototype
            if h.surface is None:
                h.surface = C.SurfaceConfig([C.FacetConfig(f.facet_key, f.control_points, f.degrees, f.translation_vector, f.canting) for f in proto.surface_prototype.facet_list])
            for f in h.surface.facet_list:
                f.degrees = torch.tensor([2, 2] if (e.actuator_list[0].actuator_type == "linear") == (case["degrees"] == 1) else [3, 2])
    if case["lights"] > 1:
        cfg["light_source_list_config"].light_source_list += [C.LightSourceConfig(f"sun_{k + 1}", constants.sun_key, rng.randint(1, 20), constants.light_source_distribution_is_normal, 0.0, rng.uniform(1e-7, 1e-5)) for k in range(1, case["lights"])]
    return cfg


def stral(case):
    rng = random.Random(f"stral:{case['seed']}")
    f32 = lambda: struct.unpack("f", struct.pack("f", rng.uniform(-2, 2)))[0]
    nx, ny = case["nx"], case["ny"]
    raw = struct.pack("=5f2I2f", *[f32() for _ in range(5)], nx, ny, f32(), f32())
    facets = []
    for k in range(nx * ny):
        head = [f32() for _ in range(9)]
        n = rng.randint(1, case["points"])
        pts = [[f32() for _ in range(7)] for _ in range(n)]
        raw += struct.pack("=i9fI", k, *head, n) + b"".join(struct.pack("=7f", *p) for p in pts)
        facets.append((head, pts))
    return raw, facets


def enu(p, ref):
    a, e2 = A_E2
    lat, lon = math.radians(p[0]), math.radians(p[1])
    s = 1 - e2 * math.sin(lat) ** 2
    return [(lon - math.radians(ref[1])) * a / math.sqrt(s) * math.cos(lat), (lat - math.radians(ref[0])) * a * (1 - e2) / s ** 1.5, p[2] - ref[2]]


def wgs(rng, ref, spread):
    return [ref[0] + rng.uniform(0.05, spread) * 1e-3, ref[1] + rng.uniform(-spread, spread) * 1e-3, ref[2] + rng.uniform(0.5, 3.0)]


def paint_site(case):
    """Field description as PAINT files: (tower, {name: (properties, deflectometry or None)})."""
    rng = random.Random(f"paint:{case['seed']}")
    ref = [50.9134 + rng.uniform(-1e-3, 1e-3), 6.3878 + rng.uniform(-1e-3, 1e-3), 87.0 + rng.uniform(0, 5)]
    corner = lambda dlat, dlon, z: [ref[0] + dlat, ref[1] + dlon, z]
    tower = {"power_plant_properties": {"ID": "WRI1030197", "coordinates": ref}}
    for k in range(case["planar"]):
        w, z, dl = rng.uniform(2e-5, 6e-5), ref[2] + rng.uniform(25, 45), rng.uniform(-3e-5, -1e-5)
        j = lambda: rng.uniform(-4e-7, 4e-7)
        tower[["solar_tower_juelich_upper", "solar_tower_juelich_lower", "multi_focus_tower"][k]] = {
            "type": "planar", "normal_vector": [0, 1, 0],
            "coordinates": {"center": corner(dl, j(), z), "upper_left": corner(dl, w + j(), z + 3.6 + rng.random()), "upper_right": corner(dl, -w + j(), z + 3.6 + rng.random()),
                            "lower_left": corner(dl, w + j(), z - 3.6 - rng.random()), "lower_right": corner(dl, -w + j(), z - 3.6 - rng.random())}}
    if case["cyl"]:
        z = ref[2] + rng.uniform(50, 60)
        jj = lambda: rng.uniform(-5e-7, 5e-7)
        tilt = rng.uniform(0.2, 0.6)
        tower["receiver"] = {"type": "convex_cylinder", "normal_vector": [0.0, math.cos(tilt), -math.sin(tilt)], "radius": rng.uniform(4.0, 4.4), "opening_angle": rng.uniform(50, 70),
                             "coordinates": {"center": corner(0, 0, z), "receiver_inner_upper_left": corner(1e-5 + jj(), 2.9e-5 + jj(), z + 2.4), "receiver_inner_upper_right": corner(1e-5 + jj(), -2.9e-5 + jj(), z + 2.4 + rng.random() / 100),
                                             "receiver_inner_lower_left": corner(-1e-5 + jj(), 2.9e-5 + jj(), z - 2.3), "receiver_inner_lower_right": corner(-1e-5 + jj(), -2.9e-5 + jj(), z - 2.3 - rng.random() / 100)}}
    if rng.random() < 0.3:   # the order of the members of a JSON object means nothing
        names = sorted(tower)
        rng.shuffle(names)
        tower = {n: tower[n] for n in names}
    hel = {}
    for k in range(case["n"]):
        nf = case["facets"]
        acts = [{"type_axis": case["act"], "min_increment": rng.randrange(50), "max_increment": 68000 + rng.randrange(9000), "increment": 154166.0 + rng.random(), "offset_shift": 0, "initial_stroke_length": rng.uniform(0.07, 0.08),
                 "offset": rng.uniform(0.33, 0.35), "pivot_radius": rng.uniform(0.31, 0.34), "radius_shift": 0, "clockwise_axis_movement": rng.randrange(2), "initial_angle": rng.uniform(0.01, 0.95), "min_movement_angle": 0.01, "max_movement_angle": 1.57, "movement_speed": 0} for _ in range(2)]
        v = np.array([rng.uniform(-0.1, 0.1), -1.0, rng.uniform(-0.1, 0.1)])
        prop = {"heliostat_position": wgs(rng, ref, 2.0), "height": 2.56, "width": 3.22, "initial_orientation": list(v / np.linalg.norm(v)),
                "kinematics_properties": {"actuators": acts, **{f"joint_translation_{c}_{j}": rng.uniform(-0.02, 0.02) for c in "enu" for j in (1, 2)}, **{f"concentrator_translation_{c}": rng.uniform(-0.2, 0.2) for c in "enu"}},
                "facet_properties": {"canting_type": "receiver canting", "number_of_facets": nf,
                                     "facets": [{"translation_vector": [rng.uniform(-0.9, 0.9), rng.uniform(-0.7, 0.7), 0.04], "canting_e": [rng.uniform(0.78, 0.81), rng.uniform(-1e-4, 1e-4), rng.uniform(-5e-3, 5e-3)], "canting_n": [rng.uniform(-2e-5, 2e-5), rng.uniform(0.62, 0.65), rng.uniform(-4e-3, 4e-3)]} for _ in range(nf)]},
                "renovation": "2021-04-15"}
        name = "".join(rng.choice("ABCDEFGHIJ") for _ in range(2)) + f"{rng.randrange(90) + 10}{k}"
        hel[name] = prop
    return tower, hel


def paint_expectation(tower, hel):
    ref = tower["power_plant_properties"]["coordinates"]
    planar, cyl = {}, {}
    for n, t in tower.items():
        if n == "power_plant_properties":
            continue
        c = {k: np.array(enu(v, ref)) for k, v in t["coordinates"].items()}
        if t["type"] == "planar":
            pe = (abs(c["upper_right"][0] - c["upper_left"][0]) + abs(c["lower_right"][0] - c["lower_left"][0])) / 2
            pu = (abs(c["upper_left"][2] - c["lower_left"][2]) + abs(c["upper_right"][2] - c["lower_right"][2])) / 2
            planar[n] = np.concatenate([c["center"], [1.0], t["normal_vector"], [0.0], [pe, pu]])
        else:
            nv, r = np.array(t["normal_vector"]), t["radius"]
            ends = []
            for lvl in ("lower", "upper"):
                l, rr = c[f"receiver_inner_{lvl}_left"], c[f"receiver_inner_{lvl}_right"]
                ends.append((l + rr) / 2 - nv * math.sqrt(r * r - (np.linalg.norm(rr - l) / 2) ** 2))
            ax = np.cross(np.cross(nv, [0, 0, 1.0]), nv)
            ax = ax / np.linalg.norm(ax)
            cyl[n] = np.concatenate([(ends[0] + ends[1]) / 2, [1.0], nv, [0.0], ax, [0.0], [r, np.linalg.norm(ends[0] - ends[1]), math.radians(t["opening_angle"])]])
    hs = {}
    for n, p in hel.items():
        k = p["kinematics_properties"]
        fs = p["facet_properties"]["facets"]
        acts = [C.ActuatorConfig(f"a{i}", a["type_axis"], bool(a["clockwise_axis_movement"]), [a["min_increment"], a["max_increment"]],
                                 C.ActuatorParameters(increment=a["increment"], initial_stroke_length=a["initial_stroke_length"], offset=a["offset"], pivot_radius=a["pivot_radius"], initial_angle=a["initial_angle"])) for i, a in enumerate(k["actuators"])]
        kind, non, opt = expect_actuators(acts)
        pad = lambda v: np.array(list(v) + [0.0])
        hs[n] = dict(kind=kind, position=np.array(enu(p["heliostat_position"], ref) + [1.0]), canting=np.stack([np.stack([pad(f["canting_e"]), pad(f["canting_n"])]) for f in fs]), facet_translations=np.stack([pad(f["translation_vector"]) for f in fs]),
                     initial_orientation=pad(p["initial_orientation"]), translation_deviations=np.array([k[f"joint_translation_{c}_1"] for c in "enu"] + [k[f"joint_translation_{c}_2"] for c in "enu"] + [k[f"concentrator_translation_{c}"] for c in "enu"]),
                     rotation_deviations=np.zeros(4), actuators_non_optimizable=non, actuators_optimizable=opt)
    return dict(plant=np.array(ref), planar=planar, cyl=cyl, heliostats=hs)


def deflectometry(path, seed, facets, uneven=None):
    rng = np.random.default_rng(seed)
    data = []
    with h5py.File(path, "w") as f:
        for k in range(facets):
            n = int(rng.integers(3, 30))
            pts, nor = rng.normal(size=(n, 3)).astype(np.float32), rng.normal(size=(n, 3)).astype(np.float32)
            m = n
            if uneven is not None and k == uneven[0] % facets:
                m = max(0, n + uneven[1])
                nor = rng.normal(size=(m, 3)).astype(np.float32)
            f[f"facet{k + 1}/surface_points"] = pts
            f[f"facet{k + 1}/surface_normals"] = nor
            data.append((pts, nor))
    return data


class Check:
    id = "C10"
    level = "fault_injection"
    rule = ("one run = input files written from drawn data (scenario files mixing individual and prototype surfaces, kinematics and actuators; STRAL binaries; PAINT tower, heliostat and deflectometry files carried through configuration, scenario file and loading), read back by a simulated process "
            "whose every file operation is numbered and which meets failing, short, interrupted or early-ending reads, truncated files or missing records; non-trivial = a fault fired or more than one kind of heliostat was loaded, distinct by operations, faults and shapes")
    measure = "hash of the input shapes, the file operations performed, the faults and how the read ended"
    real = ["Scenario loading, HeliostatField, SolarTower, light sources, h5_scenario_parser, stral_scenario_parser, paint_scenario_parser, configuration classes, H5ScenarioGenerator, h5py and libhdf5"]
    stub = ["the C library's file calls below the scratch directory (numbered, failing)", "files of a measurement campaign (generated)"]
    assumptions = ["files carry no checksums: changed bytes of a complete file cannot be noticed and are not injected", "libhdf5 fills data missing from an open file with zeros; HDF5 files are truncated before they are opened only",
                   "single precision: values are compared at 2e-6 (PAINT geometry at 1e-4) relative"]
    tiers = {"quick": dict(cases=700, wall=60), "thorough": dict(cases=20000, wall=1500)}

    def gen(self, rng, i, tier):
        kind = rng.choice(["h5"] * 5 + ["stral"] * 2 + ["paint"] * 3 + ["deflectometry"])
        fault = rng.choice(["none", "none", "none", "EIO", "EIO", "eintr", "short", "truncate", "truncate"])
        case = dict(kind=kind, seed=rng.randrange(10 ** 6), fault=fault, at=rng.random(), more=[rng.random() for _ in range(rng.randrange(3))])
        if kind == "h5":
            groups = [[rng.choice(["linear", "ideal"]), rng.randint(1, 3)] for _ in range(rng.randint(1, 3))]
            n = sum(g[1] for g in groups)
            case.update(groups=groups, own=[rng.choice([7, 7, rng.randrange(8)]) | rng.choice([0, 8, 16, 32, 56]) for _ in range(n)], planar=rng.randrange(4), cyl=rng.randrange(3), facets=rng.choice([1, 2, 4]), cps=rng.choice([4, 5]), cpv=rng.choice([4, 5, 7]),
                        degrees=rng.choice([0, 0, 1, 2]), lights=rng.choice([1, 1, 2, 3]))
            case["planar"] = max(case["planar"], 1 - case["cyl"])
        elif kind == "stral":
            case.update(nx=rng.randint(1, 3), ny=rng.randint(1, 2), points=rng.choice([1, 3, 20]))
            if fault == "none" and rng.random() < 0.3:
                case["fault"] = "eof"
            elif fault in ("truncate", "eintr", "none") and rng.random() < 0.7:
                case.update(fault="truncate", whole=True)   # the file ends between two records
        elif kind == "paint":
            case.update(planar=rng.randint(1, 3), cyl=rng.randrange(2), n=rng.randint(1, 4), facets=rng.choice([1, 2, 4]), act=rng.choice(["linear", "linear", "ideal"]), mixed=rng.choice([0, 0, 0, 1, 2, 3]))
            if fault == "none" and not case["mixed"] and rng.random() < 0.3:
                case["fault"] = "eof"
        else:
            # facets are numbered without leading zeros: from ten on their names no longer sort like their numbers
            case.update(facets=rng.choice([1, 2, 3, 4, 10, 11, 12]), uneven=[rng.randrange(12), rng.choice([-1, -2, 1])] if rng.random() < 0.3 else None, absent=rng.random() < 0.2)
        return case

    # ------------------------------------------------------------ one run
    def run(self, case):
        out = Out()
        with disk.Scratch() as d:
            getattr(self, "run_" + case["kind"])(case, pathlib.Path(d), out)
        out.stats[f"kind:{case['kind']}"] += 1
        return out

    def read(self, fn, case, d, files, out):
        """Run the read with the drawn fault; files are the candidates for truncation."""
        faults = []
        if case["fault"] == "truncate":
            p = files[int(case["at"] * 977) % len(files)]
            raw = p.read_bytes()
            cut = int(case["at"] * len(raw))
            if case.get("whole"):   # the file ends between two points of a facet
                pos, ends = 36, []
                for _, rows in stral(case)[1]:
                    pos += 44
                    ends += [pos + 28 * k for k in range(len(rows))]
                    pos += 28 * len(rows)
                cut = ends[int(case["at"] * len(ends))]
            p.write_bytes(raw[:max(0, cut)])
        elif case["fault"] in ("EIO", "eintr", "short", "eof"):
            clean = disk.run(fn, str(d))
            if clean.outcome != "ok":
                return clean
            ops = clean.ops
            if case["fault"] == "eof" and "O" in ops:   # only the files read before the scenario is written; libhdf5 zero-fills
                ops = ops[:ops.index("O")]
            where = [k for k, c in enumerate(ops) if c == "r" or (c == "o" and case["fault"] == "EIO")]
            where = where or [0]
            for a in [case["at"]] + (case["more"] if case["fault"] in ("eintr", "short") else []):
                k = where[int(a * len(where))]
                faults.append(dict(op=k, kind={"EIO": "errno", "eintr": "eintr", "short": "short", "eof": "eof"}[case["fault"]]))
        res = disk.run(fn, str(d), faults)
        out.stats["fault:" + case["fault"]] += max(res.fired, 1 if case["fault"] == "truncate" else 0)
        shape = {k: v for k, v in case.items() if k not in ("seed", "at", "more")}
        out.sig = hashlib.sha1(repr((shape, res.outcome, res.ops, faults)).encode()).hexdigest()[:16]
        out.nontrivial = bool(res.fired) or case["fault"] == "truncate" or case["kind"] != "h5" or len(case.get("groups", [])) > 1
        return res

    def decide(self, case, res, out, diff, may_fail=False):
        what = f"{case['kind']} with {case['fault']}"
        if res.outcome in ("crash", "signal"):
            return out.fail("died", f"{what}: the reading process died")
        if res.outcome == "error":
            if case["fault"] in ("none", "short", "eintr") and not may_fail:
                err = (res.error[0], res.error[1].split("/")[0].split("(")[0][:80])
                out.fail("refused", f"{what}: complete input was refused: {err}")
            return None
        if diff is not None:
            out.fail("wrong", f"{what}: loaded without an error, but {diff}")
        return None

    def run_h5(self, case, d, out):
        p = d / "plant.h5"
        cfg = mixed_configs(case)
        try:
            H5ScenarioGenerator(file_path=p, **cfg).generate_scenario()
        except Exception as e:
            return out.fail("refused", f"a scenario with individual and prototype parameters could not be written: {type(e).__name__}: {str(e)[:80]}")
        res = self.read(lambda: observed(p, 4), case, d, [p], out)
        want = expectation(cfg)
        # one group can only represent one pair of degrees and one number of control points
        by_kind = {}
        for w in want["heliostats"].values():
            by_kind.setdefault(w["kind"], set()).add((tuple(w["degrees"]), w["control_points"].shape))
        self.decide(case, res, out, compare(res.value, want) if res.outcome == "ok" else None, may_fail=any(len(v) > 1 for v in by_kind.values()))

    def run_stral(self, case, d, out):
        p = d / "surface.binp"
        raw, facets = stral(case)
        p.write_bytes(raw)

        def fn():
            a = stral_scenario_parser.extract_stral_deflectometry_data(p, device=DEV)
            return [arr(a[0]), arr(a[1]), [arr(x) for x in a[2]], [arr(x) for x in a[3]]]
        res = self.read(fn, case, d, [p], out)
        diff = None
        if res.outcome == "ok":
            t, c, pts, nor = res.value
            if len(pts) != len(facets) or len(nor) != len(facets) or len(t) != len(facets):
                diff = f"{len(pts)} facets instead of {len(facets)}"
            for k, (head, rows) in enumerate(facets):
                if diff:
                    break
                rows = np.array(rows)
                if not near(pts[k], rows[:, :3], 1e-6) or not near(nor[k], rows[:, 3:6], 1e-6):
                    diff = f"points or normals of facet {k + 1} differ from the file"
                elif not near(t[k], np.array(head[:3] + [0.0]), 1e-6) or not near(c[k], np.array([head[3:6] + [0.0], head[6:9] + [0.0]]), 1e-6):
                    diff = f"translation or canting of facet {k + 1} differs from the file"
        self.decide(case, res, out, diff)

    def run_deflectometry(self, case, d, out):
        p = d / "deflectometry.h5"
        data = deflectometry(p, case["seed"], case["facets"], case["uneven"])

        def fn():
            a = paint_scenario_parser.extract_paint_deflectometry_data(p, case["facets"] + case.get("absent", 0), device=DEV)
            return [[arr(x) for x in a[0]], [arr(x) for x in a[1]]]
        res = self.read(fn, case, d, [p], out)
        diff = None
        if res.outcome == "ok":
            for k, (a, b) in enumerate(data):
                if len(res.value[0]) != len(data) or not near(res.value[0][k], arr(a), 1e-7) or not near(res.value[1][k], arr(b), 1e-7):
                    diff = f"points or normals of facet {k + 1} differ from the file"
                    break
            if case.get("absent") and len(res.value[0]) != case["facets"] + 1:
                diff = f"{len(res.value[0])} facets instead of the {case['facets'] + 1} the heliostat has"
            elif case.get("absent"):
                diff = f"data of a facet that is not in the file were loaded"
        self.decide(case, res, out, diff, may_fail=case["uneven"] is not None or bool(case.get("absent")))

    def run_paint(self, case, d, out):
        tower, hel = paint_site(case)
        tp = d / "tower.json"
        tp.write_text(json.dumps(tower))
        paths, files = [], [tp]
        for k, (n, prop) in enumerate(hel.items()):
            hp = d / f"{k}-heliostat-properties.json"
            hp.write_text(json.dumps(prop, indent=1))
            files.append(hp)
            df = None
            if case["mixed"] and k % 3 != case["mixed"] - 1:
                df = d / f"{k}-deflectometry.h5"
                with h5py.File(df, "w") as f:
                    g = np.linspace(-0.6, 0.6, 6)
                    xy = np.array([[a, b] for a in g for b in g])
                    for q in range(case["facets"]):
                        f[f"facet{q + 1}/surface_points"] = np.concatenate([xy, 1e-3 * (xy ** 2).sum(1, keepdims=True)], 1).astype(np.float32)
                        nv = np.concatenate([-2e-3 * xy, np.ones((len(xy), 1))], 1)
                        f[f"facet{q + 1}/surface_normals"] = (nv / np.linalg.norm(nv, axis=1, keepdims=True)).astype(np.float32)
            paths.append((n, hp, df) if case["mixed"] else (n, hp))
        sp = d / "plant.h5"

        def fn():
            sp.unlink(missing_ok=True)
            plant, pl, cy = paint_scenario_parser.extract_paint_tower_measurements(tp, device=DEV)
            ncp = torch.tensor([4, 4])
            if case["mixed"]:
                opt = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=1e-3)
                hs, proto = paint_scenario_parser.extract_paint_heliostats_mixed_surface(paths, plant.power_plant_position, opt, torch.optim.lr_scheduler.ConstantLR(opt), ncp, deflectometry_step_size=1, nurbs_fit_max_epoch=2, device=DEV)
            else:
                hs, proto = paint_scenario_parser.extract_paint_heliostats_ideal_surface(paths, plant.power_plant_position, ncp, device=DEV)
            light = C.LightSourceListConfig([C.LightSourceConfig("sun_1", constants.sun_key, 3, constants.light_source_distribution_is_normal, 0.0, 4e-6)])
            H5ScenarioGenerator(file_path=sp, power_plant_config=plant, target_area_list_planar_config=pl, target_area_list_cylindrical_config=cy, light_source_list_config=light, prototype_config=proto, heliostat_list_config=hs).generate_scenario()
            got = observed(sp, 4)
            flat = {}
            for n, v in got["heliostats"].items():
                flat[n] = float(np.abs(v[0]["control_points"][..., 2]).max())
            return got, flat
        res = self.read(fn, case, d, files, out)
        diff = None
        if res.outcome == "ok":
            diff = compare(res.value[0], paint_expectation(tower, hel), tol=1e-4)
        self.decide(case, res, out, diff)

    def shrink(self, case):
        if case.get("more"):
            yield {**case, "more": []}
        if case["kind"] == "h5":
            for k in range(len(case["own"])):
                if case["own"][k] != 7:
                    yield {**case, "own": [7 if j == k else v for j, v in enumerate(case["own"])]}
            if len(case["groups"]) > 1:
                for k in range(len(case["groups"])):
                    a = sum(g[1] for g in case["groups"][:k])
                    yield {**case, "groups": case["groups"][:k] + case["groups"][k + 1:], "own": case["own"][:a] + case["own"][a + case["groups"][k][1]:]}
            for key, v in (("facets", 1), ("lights", 1), ("degrees", 0), ("cyl", 0), ("planar", 1), ("cps", 4), ("cpv", 4)):
                if case[key] != v and not (key == "cyl" and case["planar"] == 0):
                    yield {**case, key: v}
        if case["kind"] == "paint":
            for key, v in (("n", 1), ("cyl", 0), ("planar", 1), ("facets", 1), ("mixed", 0)):
                if case[key] != v:
                    yield {**case, key: v}
        if case["fault"] in ("short", "eintr"):
            yield {**case, "fault": "none"}


CHECK = Check()
