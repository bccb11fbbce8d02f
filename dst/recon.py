"""Reconstruction and aim-point jobs on generated fields and generated measurements."""
from __future__ import annotations

import random

import torch

from artist.flux import bitmap as fb
from artist.io.calibration_parser import CalibrationDataParser
from artist.optim import loss as L
from artist.optim.aim_point_optimizer import AimPointOptimizer
from artist.optim.kinematics_reconstructor import KinematicsReconstructor
from artist.optim.surface_reconstructor import SurfaceReconstructor
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants as K
from artist.util import env as aenv

from . import world

DEV = torch.device("cpu")
_DATA = {}
_TWINS = {}


class GeneratedParser(CalibrationDataParser):
    """Hands out generated measurements through the documented parser interface."""

    def __init__(self, data):
        super().__init__()
        self.data = data

    def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution=None, device=None):
        d = self.data[heliostat_group.names[0]]
        return tuple(t.clone() for t in d)


def measurements(spec, job):
    """Generated calibration data per group: flux, focal spots, suns, motor positions, mask, targets."""
    key = world._key(spec) + world._key({k: job[k] for k in ("counts", "data_seed", "res", "kind")})
    if key in _DATA:
        return _DATA[key]
    rng = random.Random(f"data:{job['data_seed']}")
    sc = world.fresh(spec)
    nt = spec["planar"] + spec["cyl"]
    res = {}
    for gi, g in enumerate(sc.heliostat_field.heliostat_groups):
        counts = torch.tensor(job["counts"][gi], dtype=torch.int32)
        n = int(counts.sum())
        if n == 0:
            res[g.names[0]] = (torch.empty(0, *reversed(job["res"])), torch.empty(0, 4), torch.empty(0, 4), torch.empty(0, 2), counts, torch.empty(0, dtype=torch.long))
            continue
        gen = torch.Generator().manual_seed(job["data_seed"] + gi)
        with torch.no_grad():
            g.kinematics.rotation_deviation_parameters += 1.5e-3 * torch.randn(g.kinematics.rotation_deviation_parameters.shape, generator=gen)
        targets = torch.tensor([rng.randrange(nt) for _ in range(n)], dtype=torch.long)
        inc = torch.tensor([world.sun(rng) for _ in range(n)])
        aim = sc.solar_tower.get_centers_of_target_areas(target_area_indices=targets, device=DEV)
        g.activate_heliostats(active_heliostats_mask=counts, device=DEV)
        g.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=inc, active_heliostats_mask=counts, device=DEV)
        motors = g.kinematics.active_motor_positions.detach().clone()
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=g, blocking_active=False, batch_size=1000, random_seed=3, bitmap_resolution=torch.tensor(job["res"]))
        flux = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=counts, target_area_indices=targets, device=DEV)[0].detach()
        if job["kind"] == "surface":
            flux = fb.crop_flux_distributions_around_center(flux_distributions=flux, solar_tower=sc.solar_tower, target_area_indices=targets, device=DEV)
        flux = flux + 1e-3
        spots = aim.detach().clone()
        spots[:, :3] += 0.05 * torch.randn(spots[:, :3].shape, generator=gen)
        res[g.names[0]] = (flux, spots, inc, motors, counts, targets)
    if len(_DATA) > 60:
        _DATA.clear()
    _DATA[key] = res
    return res


def twin(spec, job):
    """What the scenario itself would measure (a virtual heliostat field without any error)."""
    key = world._key(spec) + world._key({k: job[k] for k in ("counts", "data_seed", "res", "kind", "dni")})
    if key in _TWINS:
        return _TWINS[key]
    rng = random.Random(f"twin:{job['data_seed']}")
    sc = world.fresh(spec)
    nt = spec["planar"] + spec["cyl"]
    res = {}
    for gi, g in enumerate(sc.heliostat_field.heliostat_groups):
        counts = torch.tensor(job["counts"][gi], dtype=torch.int32)
        n = int(counts.sum())
        if n == 0:
            res[g.names[0]] = (torch.empty(0, *reversed(job["res"])), torch.empty(0, 4), torch.empty(0, 4), torch.empty(0, 2), counts, torch.empty(0, dtype=torch.long))
            continue
        targets = torch.tensor([rng.randrange(nt) for _ in range(n)], dtype=torch.long)
        inc = torch.tensor([world.sun(rng) for _ in range(n)])
        aim = sc.solar_tower.get_centers_of_target_areas(target_area_indices=targets, device=DEV)
        g.activate_heliostats(active_heliostats_mask=counts, device=DEV)
        g.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=inc, active_heliostats_mask=counts, device=DEV)
        motors = g.kinematics.active_motor_positions.detach().clone()
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=g, blocking_active=False, batch_size=1000, random_seed=3, bitmap_resolution=torch.tensor(job["res"]), dni=job["dni"])
        flux = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=counts, target_area_indices=targets, device=DEV)[0].detach()
        if job["kind"] == "surface":
            flux = fb.crop_flux_distributions_around_center(flux_distributions=flux, solar_tower=sc.solar_tower, target_area_indices=targets, device=DEV)
        normals = (g.kinematics.motor_positions_to_orientations(motor_positions=motors, device=DEV) @ torch.tensor([0.0, 0.0, 1.0, 0.0])).detach()[:, :3]
        out = inc[:, :3] - 2 * (inc[:, :3] * normals).sum(1, keepdim=True) * normals
        where = torch.tensor([h for h, c in enumerate(job["counts"][gi]) for _ in range(c)])
        spots = torch.cat([g.positions[where][:, :3] + out * torch.tensor([[rng.uniform(30, 90)] for _ in range(n)]), torch.ones(n, 1)], 1)
        res[g.names[0]] = (flux, spots.detach(), inc, motors, counts, targets)
    if len(_TWINS) > 60:
        _TWINS.clear()
    _TWINS[key] = res
    return res


LOSSES = {
    "kl": lambda sc: L.KLDivergenceLoss(),
    "pixel": lambda sc: L.PixelLoss(),
    "focal": lambda sc: L.FocalSpotLoss(scenario=sc),
    "angle": lambda sc: L.AngleLoss(),
}


def gen_job(rng, kind, spec, epochs=(1, 4)):
    """A JSON-able description of one optimisation job."""
    counts = []
    for g in spec["groups"]:
        s = rng.randint(2, 3)
        m = [s if rng.random() < 0.75 else 0 for _ in range(g["n"])]
        if sum(m) == 0 and rng.random() < 0.8:
            m[rng.randrange(g["n"])] = s
        counts.append(m)
    if not any(any(m) for m in counts):
        counts[0][0] = 2
    sched = rng.choice(["exponential", "cyclic", "reduce_on_plateau"])
    return dict(kind=kind, counts=counts, data_seed=rng.randrange(8), res=rng.choice([[8, 8], [8, 11], [12, 7]]),
                loss=rng.choice({"kin_flux": ["kl", "pixel", "focal"], "kin_align": ["angle"], "surface": ["kl", "pixel"], "aim": ["kl", "kl", "pixel", "focal"]}[kind]),
                max_epoch=rng.randint(*epochs), batch=rng.randint(1, 6), log_step=rng.choice([0, 1, 2, 3]),
                tol=rng.choice([0.0, 0.0, 0.0, 1e-3, 0.2, 1e9]), es_delta=rng.choice([1e-4, 1e-4, 0.02, 1.0]), es_pat=rng.randint(1, 3), es_win=rng.randint(2, 4),
                lr=rng.choice([1e-4, 5e-4]), sched=sched, dni=rng.choice([None, 800.0]) if kind != "aim" else 800.0,
                ws=rng.choice([0.0, 0.01]), wi=rng.choice([0.0, 0.01]), sun_seed=rng.randrange(100), target=rng.randrange(spec["planar"] + spec["cyl"]),
                max_flux=rng.choice([1e6, 10.0]))


def config(job):
    opt = {K.initial_learning_rate: job["lr"] if job["kind"] != "aim" else job["lr"] * 2, K.initial_learning_rate_rotation_deviation: job["lr"],
           K.tolerance: job["tol"], K.max_epoch: job["max_epoch"], K.batch_size: job["batch"], K.log_step: job["log_step"],
           K.early_stopping_delta: job["es_delta"], K.early_stopping_patience: job["es_pat"], K.early_stopping_window: job["es_win"]}
    sch = {K.scheduler_type: job["sched"], K.gamma: 0.9, K.lr_min: 1e-6, K.lr_max: 2 * job["lr"], K.step_size_up: 3, K.reduce_factor: 0.5,
           K.patience: 0, K.threshold: 1e-3, K.cooldown: 0}
    con = {K.rho_flux_integral: 1.0, K.rho_local_flux: 1.0, K.rho_intercept: 1.0, K.max_flux_density: job["max_flux"], K.energy_tolerance: 0.01,
           K.weight_smoothness: job["ws"], K.weight_ideal_surface: job["wi"]}
    return {K.optimization: opt, K.scheduler: sch, K.constraints: con}


def run(spec, job, setup, scenario, hook=None, measured=None):
    """Run the job of one rank; returns everything a user gets plus the scenario state."""
    kind = job["kind"]
    data = None
    if kind != "aim":
        data = {K.data_parser: GeneratedParser(measurements(spec, job) if measured is None else measured), K.heliostat_data_mapping: []}
    loss = hook() if hook else LOSSES[job["loss"]](scenario)
    bres = torch.tensor(job["res"])
    extra = {}
    if kind in ("kin_flux", "kin_align"):
        method = K.kinematics_reconstruction_raytracing if kind == "kin_flux" else K.kinematics_reconstruction_alignment
        r = KinematicsReconstructor(ddp_setup=setup, scenario=scenario, data=data, optimization_configuration=config(job), dni=job["dni"],
                                    reconstruction_method=method, bitmap_resolution=bres)
        final, history = r.reconstruct_kinematics(loss_definition=loss, device=DEV)
    elif kind == "surface":
        r = SurfaceReconstructor(ddp_setup=setup, scenario=scenario, data=data, optimization_configuration=config(job), dni=job["dni"],
                                 number_of_surface_points=torch.tensor([spec["points"], spec["points"]]), bitmap_resolution=bres, device=DEV)
        final, history = r.reconstruct_surfaces(loss_definition=loss, device=DEV)
    else:
        gt = torch.zeros(*reversed(job["res"]))
        gt[2:-2, 2:-2] = 1.0
        gt = gt / gt.sum()
        r = AimPointOptimizer(ddp_setup=setup, scenario=scenario, optimization_configuration=config(job),
                              incident_ray_direction=torch.tensor(world.sun(random.Random(job["sun_seed"]))), target_area_index=job["target"],
                              ground_truth=gt, dni=job["dni"], bitmap_resolution=bres, device=DEV)
        final, history, ic, ot, bl = r.optimize(loss_definition=loss, device=DEV)
        extra = dict(intercept=ic.detach().clone(), on_target=ot.detach().clone(), blocking=bl.detach().clone())
    return dict(final=final.detach().clone(), history=history, state=state(scenario), around=surroundings(scenario), **extra)


def state(scenario):
    out = []
    for g in scenario.heliostat_field.heliostat_groups:
        out.append(dict(rot=g.kinematics.rotation_deviation_parameters.detach().clone(),
                        trans=g.kinematics.translation_deviation_parameters.detach().clone(),
                        act=g.kinematics.actuators.optimizable_parameters.detach().clone(),
                        nonopt=g.kinematics.actuators.non_optimizable_parameters.detach().clone(),
                        motors=g.kinematics.motor_positions.detach().clone(),
                        cps=g.nurbs_control_points.detach().clone(),
                        points=g.surface_points.detach().clone(), normals=g.surface_normals.detach().clone(),
                        pos=g.positions.detach().clone()))
    return out


def _walk(x, path, out, depth=0):
    if isinstance(x, torch.Tensor):
        out[path] = x.detach().clone()
    elif isinstance(x, (int, float, str, bool)):
        out[path] = x
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            _walk(v, f"{path}[{i}]", out, depth + 1)
    elif depth < 6 and type(x).__module__.startswith("artist") and hasattr(x, "__dict__"):
        for k, v in sorted(vars(x).items()):
            if not k.startswith("_"):
                _walk(v, f"{path}.{k}", out, depth + 1)


def surroundings(scenario):
    """Everything of the scenario that no optimisation may touch, besides the state above."""
    out = {}
    for part in ("power_plant_position", "solar_tower", "light_sources"):
        _walk(getattr(scenario, part), part, out)
    for i, g in enumerate(scenario.heliostat_field.heliostat_groups):
        for key in ("names", "canting", "facet_translations", "initial_orientations", "nurbs_degrees", "positions", "number_of_heliostats"):
            _walk(getattr(g, key), f"group {i} {key}", out)
    return out


def differing(a, b):
    """First path whose value differs between two surroundings."""
    for k in a:
        if k in b:
            same = torch.equal(a[k], b[k]) if isinstance(a[k], torch.Tensor) and isinstance(b[k], torch.Tensor) else a[k] == b[k] if not isinstance(a[k], torch.Tensor) and not isinstance(b[k], torch.Tensor) else False
            if not same:
                return k
    return None


OPTIMISED = {"kin_flux": ("rot",), "kin_align": ("rot",), "surface": ("cps", "points", "normals"), "aim": ("motors",)}


def plain(x):
    """Histories as plain comparable Python objects."""
    if isinstance(x, torch.Tensor):
        return [round(float(v), 9) for v in x.detach().flatten().tolist()]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def rank_body(spec, job):
    def body(p):
        sc = world.fresh(spec)
        p.data["scenario"] = sc
        with aenv.setup_distributed_environment(number_of_heliostat_groups=len(spec["groups"]), device=DEV) as d:
            res = run(spec, job, d, sc, p.data.get("loss"), measured=twin(spec, job) if job.get("perfect") else None)
            res["ddp"] = {k: v for k, v in d.items() if k != "process_subgroup"}
        return res
    return body
