"""Small but complete ARTIST scenarios, generated from a seeded description.

A *world spec* is a JSON-able dict:
  groups  : list of {"act": "linear"|"ideal", "n": heliostats}
  planar, cyl : number of target areas of each kind
  rays, points, cps, facets : sizes
  seed    : positions, surface shapes, deviations
  layout  : "spread" or "dense" (dense rows block each other)
The scenario is written with the real generator, read back with the real loader,
and the loaded heliostats are then sliced into the requested number of groups
(the file format itself can only express one group per actuator type).
"""
from __future__ import annotations

import copy
import math
import os
import pathlib
import random

import h5py
import torch

from artist.field import HeliostatField, HeliostatGroupRigidBody
from artist.nurbs.utils import create_planar_nurbs_control_points
from artist.scenario import H5ScenarioGenerator, Scenario
from artist.util import config as C
from artist.util import constants

DEV = torch.device("cpu")


def default_spec(**kw):
    s = dict(groups=[{"act": "linear", "n": 2}], planar=2, cyl=1, rays=3, points=4, cps=4, facets=1, seed=1, layout="spread", cov=4.3681e-06)
    s.update(kw)
    return s


def _actuators(act, rng, jitter=True):
    j = (lambda s: rng.uniform(-s, s)) if jitter else (lambda s: 0.0)
    return C.ActuatorListConfig([
        C.ActuatorConfig("actuator_0", act, False, [0, 69000 + rng.randrange(900)], C.ActuatorParameters(
            increment=torch.tensor(154166.671875), initial_stroke_length=torch.tensor(0.0742 + j(0.003)),
            offset=torch.tensor(0.3353079855442047), pivot_radius=torch.tensor(0.3380950093269348), initial_angle=torch.tensor(0.012 + j(0.02)))),
        C.ActuatorConfig("actuator_1", act, True, [0, 75000 + rng.randrange(900)], C.ActuatorParameters(
            increment=torch.tensor(154166.671875), initial_stroke_length=torch.tensor(0.0779 + j(0.003)),
            offset=torch.tensor(0.34077098965644836), pivot_radius=torch.tensor(0.3190999925136566), initial_angle=torch.tensor(0.939 + j(0.01)))),
    ])


def _kinematics(rng, proto=False):
    z = lambda s=0.0: torch.tensor(rng.uniform(-s, s) if s else 0.0)
    dev = C.KinematicsDeviations(
        first_joint_translation_e=z(), first_joint_translation_n=z(), first_joint_translation_u=z(),
        first_joint_tilt_n=z(0.002), first_joint_tilt_u=z(0.002),
        second_joint_translation_e=z(), second_joint_translation_n=z(), second_joint_translation_u=z(),
        second_joint_tilt_e=z(0.002), second_joint_tilt_n=z(0.002),
        concentrator_translation_e=z(), concentrator_translation_n=torch.tensor(0.175), concentrator_translation_u=z())
    cls = C.KinematicsPrototypeConfig if proto else C.KinematicsConfig
    return cls(constants.rigid_body_key, torch.tensor([0.0, -1.0, 0.0, 0.0]), dev)


def _facets(spec, rng):
    n = spec["facets"]
    half = [(0.8, 0.64)] * n
    offs = {1: [(0, 0)], 2: [(-0.81, 0), (0.81, 0)], 4: [(-0.81, 0.65), (0.81, 0.65), (-0.81, -0.65), (0.81, -0.65)]}[n]
    out = []
    for i in range(n):
        canting = torch.tensor([[half[i][0], 0.0, 0.0, 0.0], [0.0, half[i][1], 0.0, 0.0]])
        cpv = spec.get("cpv", spec["cps"])
        cp = create_planar_nurbs_control_points(torch.tensor([spec["cps"], cpv]), canting.unsqueeze(0), device=DEV)[0].clone()
        amp = rng.uniform(0.0, 0.004)
        if spec.get("flat"):
            amp = None
        for a in range(spec["cps"]):
            for b in range(cpv):
                if amp is None:
                    continue
                cp[a, b, 2] += amp * ((a / (spec["cps"] - 1) - 0.5) ** 2 + (b / (cpv - 1) - 0.5) ** 2) + rng.uniform(-2e-4, 2e-4)
        if amp is not None and n > 1:
            cp += torch.tensor([offs[i][0], offs[i][1], 0.04])
        out.append(C.FacetConfig(f"facet_{i + 1}", cp, torch.tensor([2 if c < 4 else 3 for c in (spec["cps"], cpv)]), torch.tensor([offs[i][0], offs[i][1], 0.04, 0.0]), canting))
    return out


def heliostat_names(spec):
    names, k = [], 0
    for gi, g in enumerate(spec["groups"]):
        names.append([f"H{k + i:03d}" for i in range(g["n"])])
        k += g["n"]
    return names


def positions(spec, rng):
    pos = []
    total = sum(g["n"] for g in spec["groups"])
    for k in range(total):
        if spec["layout"] == "dense":
            e, n = (k % 2) * 1.2 + rng.uniform(-0.2, 0.2), 30.0 + (k // 2) * 2.0 + rng.uniform(-0.1, 0.1)
            u = 1.7 + rng.uniform(-0.02, 0.02)
        elif spec["layout"] == "column":
            e, n, u = rng.uniform(-0.15, 0.15), 40.0 + 1.6 * k, 1.7
        else:
            e, n = (k % 4) * 9.0 - 13.0 + rng.uniform(-2, 2), 24.0 + (k // 4) * 9.0 + rng.uniform(-2, 2)
            u = 1.7 + rng.uniform(-0.05, 0.05)
        if spec.get("far") and k == total - 1:
            e, n = 2600.0, 3100.0
        pos.append(torch.tensor([e, n, u, 1.0]))
    order = list(range(total))
    if spec.get("shuffle"):
        rng.shuffle(order)
    return [pos[i] for i in order]


def configs(spec):
    """All configuration objects of the spec (also used for the round-trip check)."""
    rng = random.Random(f"world:{spec['seed']}")
    th = spec.get("height", 43.0)
    planar = C.TargetAreaPlanarListConfig([
        C.TargetAreaPlanarConfig(f"plane_{i}", torch.tensor([-6.0 + 9.0 * i, -3.2 + 0.1 * i, th - 4.0 * i, 1.0]), torch.tensor([0.0, 1.0, 0.0, 0.0]), torch.tensor(8.6 - i), torch.tensor(7.2 - 0.5 * i))
        for i in range(spec["planar"])])
    turn = spec.get("turn", 0.0)   # cylinders facing away from north

    def turned(v):
        return torch.tensor([v[0] * math.cos(turn) + v[1] * math.sin(turn), -v[0] * math.sin(turn) + v[1] * math.cos(turn)] + v[2:]) if turn else torch.tensor(v)
    sin_tilt, cos_tilt = (0.0, 1.0) if spec.get("opening") else (0.4226182699203491, 0.9063078165054321)
    cyl = C.TargetAreaCylindricalListConfig([
        C.TargetAreaCylindricalConfig(f"receiver_{i}", radius=torch.tensor(4.14), center=torch.tensor([0.5 * i, -3.755, (26.0 - 6.0 * i) if spec.get("opening") else 56.74 - 6.0 * i, 1.0]), height=torch.tensor(20.0 if spec.get("opening") else 5.23), axis=turned([0.0, sin_tilt, cos_tilt, 0.0]), normal=turned([0.0, cos_tilt, -sin_tilt, 0.0]), opening_angle=torch.tensor(spec.get("opening") or 1.0471975803375244))
        for i in range(spec["cyl"])])
    light = C.LightSourceListConfig([C.LightSourceConfig("sun_1", constants.sun_key, spec["rays"], constants.light_source_distribution_is_normal, 0.0, spec.get("cov", 4.3681e-06))])
    proto_f = _facets(spec, rng)
    proto = C.PrototypeConfig(C.SurfacePrototypeConfig(proto_f), _kinematics(rng, True), C.ActuatorPrototypeConfig(_actuators(spec["groups"][0]["act"], rng).actuator_list))
    pos = positions(spec, rng)
    hs, k = [], 0
    for gi, g in enumerate(spec["groups"]):
        for i in range(g["n"]):
            hs.append(C.HeliostatConfig(f"H{k:03d}", k, pos[k],
                                        surface=C.SurfaceConfig(_facets(spec, rng)),
                                        kinematics=_kinematics(rng),
                                        actuators=_actuators(g["act"], rng)))
            k += 1
    return dict(power_plant_config=C.PowerPlantConfig(torch.tensor([50.913421122592574, 6.387824755874856, 87.0], dtype=torch.float64)),
                target_area_list_planar_config=planar, target_area_list_cylindrical_config=cyl,
                light_source_list_config=light, heliostat_list_config=C.HeliostatListConfig(hs), prototype_config=proto)


_TEMPLATES = {}


def _key(spec):
    import json
    return json.dumps(spec, sort_keys=True)


def write_file(spec, path):
    H5ScenarioGenerator(file_path=pathlib.Path(path), **configs(spec)).generate_scenario()


def template(spec, scratch="."):
    key = _key(spec)
    if key not in _TEMPLATES:
        path = os.path.join(scratch, f"tmpl-{os.getpid()}-{len(_TEMPLATES)}.h5")
        write_file(spec, path)
        with h5py.File(path) as f:
            sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor([spec["points"], spec["points"]]), device=DEV)
        os.unlink(path)
        _TEMPLATES[key] = regroup(sc, spec)
        if len(_TEMPLATES) > 40:
            _TEMPLATES.pop(next(iter(_TEMPLATES)))
    return _TEMPLATES[key]


def regroup(sc, spec, names_per_group=None):
    """Slice the loaded heliostats into the groups of the spec (or into the given groups of names)."""
    where = {}
    for g in sc.heliostat_field.heliostat_groups:
        for i, n in enumerate(g.names):
            where[n] = (g, i)
    groups = []
    for names in names_per_group or heliostat_names(spec):
        src = where[names[0]][0]
        idx = torch.tensor([where[n][1] for n in names])
        opt = src.kinematics.actuators.optimizable_parameters
        groups.append(HeliostatGroupRigidBody(
            names=list(names), positions=src.positions[idx].clone(), surface_points=src.surface_points[idx].clone(),
            surface_normals=src.surface_normals[idx].clone(), canting=src.canting[idx].clone(),
            facet_translations=src.facet_translations[idx].clone(), initial_orientations=src.initial_orientations[idx].clone(),
            nurbs_control_points=src.nurbs_control_points[idx].clone(), nurbs_degrees=src.nurbs_degrees.clone(),
            kinematics_translation_deviation_parameters=src.kinematics.translation_deviation_parameters[idx].detach().clone(),
            kinematics_rotation_deviation_parameters=src.kinematics.rotation_deviation_parameters[idx].detach().clone(),
            actuator_parameters_non_optimizable=src.kinematics.actuators.non_optimizable_parameters[idx].clone(),
            actuator_parameters_optimizable=opt[idx].detach().clone() if opt.numel() else torch.tensor([]),
            device=DEV))
    sc.heliostat_field = HeliostatField(groups, device=DEV)
    return sc


def fresh(spec, scratch="."):
    return copy.deepcopy(template(spec, scratch))


def sun(rng):
    """An incident ray direction from a plausible southern sun."""
    az, el = rng.uniform(-0.7, 0.7), rng.uniform(0.35, 1.1)
    d = [-math.sin(az) * math.cos(el), math.cos(az) * math.cos(el), -math.sin(el)]
    n = math.sqrt(sum(x * x for x in d))
    return [x / n for x in d] + [0.0]
