"""C13: fitted and ideal surfaces describe each facet's own data, whatever was fitted before."""
import math
import os
import pathlib

import h5py
import torch

from dst import sim, world
from dst.runner import Out

from checks.c14 import Bomb

from artist.scenario import H5ScenarioGenerator, Scenario
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import config as C
from artist.util import constants

DEV = torch.device("cpu")
LOG = []                       # what the optimiser and the scheduler saw; global, so that copies of them write here too
FAIL = {"at": None, "n": 0, "max": 10 ** 9}    # optimiser step at which a fit is interrupted, and when it is given up


class Endless(BaseException):
    """A fit takes more steps than its budget by far."""


def tool(kind, lr, base={}):
    """An optimiser class of the user that notes parameters and gradients of every step."""
    if kind not in base:
        parent = {"adam": torch.optim.Adam, "sgd": torch.optim.SGD, "rmsprop": torch.optim.RMSprop}[kind]

        class Noted(parent):
            def step(self, closure=None):
                FAIL["n"] += 1
                if FAIL["n"] > FAIL["max"]:
                    raise Endless()
                if FAIL["at"] is not None and FAIL["n"] > FAIL["at"]:
                    FAIL["at"] = None
                    raise KeyboardInterrupt("injected")
                ps = [p for g in self.param_groups for p in g["params"]]
                LOG.append(("step", [p.detach().clone() for p in ps], [None if p.grad is None else p.grad.detach().clone() for p in ps], self.param_groups[0]["lr"], ps))
                r = super().step(closure)
                LOG.append(("moved", [p.detach().clone() for p in ps]))
                return r
        base[kind] = Noted
    return base[kind]([torch.empty(1, requires_grad=True)], lr=lr)


class Plateau(torch.optim.lr_scheduler.ReduceLROnPlateau):
    def step(self, metrics, epoch=None):
        LOG.append(("loss", float(metrics)))
        return super().step(metrics) if epoch is None else super().step(metrics, epoch)


# ------------------------------------------------------------ reference model
def basis(x, n, p):
    """Values and derivatives of the n B-splines of degree p on clamped uniform knots (Cox-de Boor, float64)."""
    t = torch.cat([torch.zeros(p, dtype=torch.float64), torch.linspace(0, 1, n - p + 1, dtype=torch.float64), torch.ones(p, dtype=torch.float64)])
    x = x.double().clamp(0.0, 1.0)
    span = torch.clamp(torch.floor(x * (n - p)).long(), max=n - p - 1) + p
    b = torch.zeros(len(x), len(t) - 1, dtype=torch.float64)
    b[torch.arange(len(x)), span] = 1.0
    d = None
    for q in range(1, p + 1):
        m = len(t) - 1 - q
        new, der = torch.zeros(len(x), m, dtype=torch.float64), torch.zeros(len(x), m, dtype=torch.float64)
        for i in range(m):
            l, r = t[i + q] - t[i], t[i + q + 1] - t[i + 1]
            if l > 0:
                new[:, i] += (x - t[i]) / l * b[:, i]
                der[:, i] += q / l * b[:, i]
            if r > 0:
                new[:, i] += (t[i + q + 1] - x) / r * b[:, i + 1]
                der[:, i] -= q / r * b[:, i + 1]
        b, d = new, der
    return b, d


def evaluate(cp, degrees, uv):
    """Points and unit normals of one facet (float64)."""
    bu, du = basis(uv[:, 0], cp.shape[0], degrees[0])
    bv, dv = basis(uv[:, 1], cp.shape[1], degrees[1])
    s = torch.einsum("pi,pj,ijk->pk", bu, bv, cp)
    n = torch.linalg.cross(torch.einsum("pi,pj,ijk->pk", du, bv, cp), torch.einsum("pi,pj,ijk->pk", bu, dv, cp))
    return s, n / n.norm(dim=1, keepdim=True).clamp_min(1e-30)


def parameters(points):
    """Where on the unit square a measured point lies."""
    p = points[:, :2].double()
    lo = p.min(0).values
    return (p - lo + 1e-5) / (p.max(0).values - lo + 2e-5)


def grid(n):
    return torch.cartesian_prod(*[torch.linspace(1e-7, 1 - 1e-7, k, dtype=torch.float64) for k in n])


def canted(canting, rows):
    """Rows turned into the frame spanned by the canting vectors of a facet."""
    e, n = canting[0, :3].double(), canting[1, :3].double()
    e = e / e.norm()
    u = torch.linalg.cross(e, n)
    u = u / u.norm()
    return rows @ torch.stack([e, torch.linalg.cross(u, e), u])


def error(points, normals, cp, uv, degrees, method):
    s, n = evaluate(cp, degrees, uv)
    diff = (s - points.double()) if method == "points" else (n - normals.double())
    return (diff ** 2).sum() / (4 * len(diff))      # the fourth component of points and normals agrees


# ------------------------------------------------------------ generated data
def measured(f):
    """Points and normals measured on one facet."""
    gen = torch.Generator().manual_seed(f["seed"])
    n, (w, h) = f["n"], f["size"]
    xy = (torch.rand(n, 2, generator=gen, dtype=torch.float64) - 0.5) * torch.tensor([w, h], dtype=torch.float64)
    if f.get("raster"):        # corners measured: facets of one size have the same extent, whatever lies between
        k = torch.tensor([[-1, -1], [-1, 1], [1, -1], [1, 1]], dtype=torch.float64)
        where = torch.randperm(n, generator=gen)[:4] if f["raster"] == "shuffled" else torch.arange(4)
        xy[where] = k * torch.tensor([w, h], dtype=torch.float64) / 2
    a, b, c, te, tn = f["shape"]
    x, y = xy[:, 0], xy[:, 1]
    z = a * x * x + b * y * y + c * x * y + te * x + tn * y + f["at"][2]
    nor = torch.stack([-(2 * a * x + c * y + te), -(2 * b * y + c * x + tn), torch.ones(n, dtype=torch.float64)], 1)
    pts = torch.stack([x + f["at"][0], y + f["at"][1], z], 1)
    return pts.float(), (nor / nor.norm(dim=1, keepdim=True)).float()


def gen_facet(rng, load=False):
    k = rng.choice(["flat", "tilt", "bowl", "saddle", "any"])
    s = {"flat": [0, 0, 0, 0, 0], "tilt": [0, 0, 0, rng.uniform(-0.02, 0.02), rng.uniform(-0.02, 0.02)],
         "bowl": [rng.uniform(0.001, 0.02)] * 2 + [0, 0, 0], "saddle": [0.01, -0.01, rng.uniform(-0.01, 0.01), 0, 0],
         "any": [rng.uniform(-0.02, 0.02) for _ in range(5)]}[k]
    return dict(seed=rng.randrange(10 ** 6), n=rng.randint(12, 60), size=[rng.choice([1.2, 1.6, 2.0]), rng.choice([1.2, 1.3])], shape=s,
                at=[round(rng.uniform(-0.9, 0.9), 3), round(rng.uniform(-0.7, 0.7), 3), 0.04])


def canting_of(f):
    e, n = f["cant"]
    w, h = f["size"]
    return torch.tensor([[w / 2 * math.cos(e), 0.0, w / 2 * math.sin(e), 0.0], [0.0, h / 2 * math.cos(n), h / 2 * math.sin(n), 0.0]])


def gen_fit(rng, n_facets):
    deg = rng.choice([[3, 3], [2, 2], [3, 2], [2, 3]])
    facets = [gen_facet(rng) for _ in range(n_facets)]
    raster = rng.choice([None, "corners", "shuffled"])
    if raster:
        for f in facets:
            f.update(raster=raster, size=facets[0]["size"], n=facets[0]["n"], at=facets[0]["at"] if rng.random() < 0.5 else f["at"])
    for f in facets:
        f["cant"] = [round(rng.uniform(-0.03, 0.03), 4), round(rng.uniform(-0.03, 0.03), 4)]
    return dict(facets=facets, cps=[rng.randint(4, 7), rng.randint(4, 7)], degrees=deg, method=rng.choice(["points", "normals"]), step=rng.choice([1, 1, 2, 3]),
                epochs=rng.choice([0, 1, 3, 6, 10]), tol=rng.choice([1e-10, 1e-10, 1e-7, 1e-5, 1e-4]))


def close(a, b, tol):
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and float((a.double() - b.double()).abs().max()) <= tol


class Check:
    id = "C13"
    level = "exploration"
    rule = ("one run = one seeded history of surface fits (facet data, control points, degrees, method, thinning, tolerance, optimiser and scheduler, all shared as in a field; earlier fits that end, are interrupted or run out of memory) or of a scenario file with ideal or "
            "fitted surfaces loaded by one to three ranks, checked step by step against a float64 B-spline reference; non-trivial = at least two facets and two optimiser steps, or a loaded field")
    measure = "hash of the fit history (facet data, sizes, faults) or of the (rank, yield point) sequence"
    real = ["artist.scenario.surface_generator", "artist.nurbs", "artist.field.surface, artist.field.heliostat_field (surfaces)", "artist.geometry.transforms.perform_canting", "H5ScenarioGenerator, Scenario.load_scenario_from_hdf5", "torch.optim optimisers and ReduceLROnPlateau"]
    stub = ["process start (threads under the seeded scheduler)", "deflectometry data (analytic facets)"]
    assumptions = ["float32 against a float64 reference: agreement within rounding", "the loss of a fit is the mean squared error over four components"]
    tiers = {"quick": dict(cases=420, wall=40), "thorough": dict(cases=12000, wall=600)}

    def gen(self, rng, i, tier):
        kind = rng.choice(["fit", "fit", "fit", "load", "load"])
        if kind == "fit":
            case = dict(kind=kind, opt=rng.choice(["adam", "adam", "sgd", "rmsprop"]), lr=rng.choice([1e-3, 5e-3, 2e-4]), sched=rng.random() < 0.7, main=gen_fit(rng, rng.randint(1, 4)), earlier=[])
            for _ in range(rng.choice([0, 0, 1, 2])):
                e = gen_fit(rng, rng.randint(1, 2))
                if rng.random() < 0.5:
                    e["cps"], e["degrees"] = case["main"]["cps"], case["main"]["degrees"]
                if rng.random() < 0.3:
                    for a, b in zip(e["facets"], case["main"]["facets"]):
                        a.update(n=b["n"], size=b["size"], raster=b.get("raster"))
                e["fault"] = rng.choice([None, ["stop", rng.randint(0, 8)], ["memory", rng.randint(0, 900)]])
                case["earlier"].append(e)
            return case
        n_facets = rng.choice([1, 2, 4])
        fits = [gen_fit(rng, n_facets) for _ in range(rng.randint(1, 3))]
        for f in fits:
            f["cps"], f["degrees"], f["epochs"] = fits[0]["cps"], fits[0]["degrees"], rng.choice([0, 2])
            f["ideal"] = rng.random() < 0.5
        w = rng.randint(1, 3)
        return dict(kind=kind, fits=fits, points=[rng.randint(2, 7), rng.randint(2, 7)] if rng.random() < 0.5 else [rng.randint(2, 6)] * 2, world=w, sched=sim.gen_sched(rng, w), act=rng.choice(["linear", "ideal"]), seed=rng.randrange(10 ** 6), bend=rng.random() < 0.6)

    # ---------------------------------------------------------------- fits
    def fit(self, spec, tools, facets=None):
        facets = spec["facets"] if facets is None else facets
        pts, nor = zip(*[measured(f) for f in facets])
        key = (*spec["cps"], *spec["degrees"])
        if key not in self.made:       # one generator for all fits of one size
            self.made[key] = SurfaceGenerator(number_of_control_points=torch.tensor(spec["cps"]), degrees=torch.tensor(spec["degrees"]), device=DEV)
        return self.made[key].generate_fitted_surface_config(
            heliostat_name="A", facet_translation_vectors=torch.stack([torch.tensor(f["at"] + [0.0]) for f in facets]), canting=torch.stack([canting_of(f) for f in facets]),
            surface_points_with_facets_list=list(pts), surface_normals_with_facets_list=list(nor), optimizer=tools[0], scheduler=tools[1], deflectometry_step_size=spec["step"],
            fit_method={"points": constants.fit_nurbs_from_points, "normals": constants.fit_nurbs_from_normals}[spec["method"]], tolerance=spec["tol"], max_epoch=spec["epochs"], device=DEV)

    def tools(self, case):
        o = tool(case["opt"], case["lr"])
        return o, Plateau(o, factor=0.5, patience=1, threshold=1e-2) if case["sched"] else None

    def run(self, case):
        self.made = {}
        return self.run_fit(case) if case["kind"] == "fit" else self.run_load(case)

    def run_fit(self, case):
        out = Out()
        spec = case["main"]
        tools = self.tools(case)
        for e in case["earlier"]:
            fault = e["fault"]
            FAIL["n"], FAIL["max"], FAIL["at"] = 0, 200, fault[1] if fault and fault[0] == "stop" else None
            with Bomb(fault[1] if fault and fault[0] == "memory" else None, "memory") as bomb:
                try:
                    self.fit(e, tools)
                except Endless:
                    return out.fail("steps", f"more than 200 steps for {len(e['facets'])} facets with a budget of {e['epochs']} epochs")
                except (KeyboardInterrupt, MemoryError, RuntimeError):
                    if not bomb.fired and not (fault and fault[0] == "stop" and FAIL["at"] is None):
                        raise
                    out.stats["fault:fit_interrupted" if not bomb.fired else "fault:out_of_memory"] += 1
            FAIL["at"] = None
            out.stats["earlier_fits"] += 1
        LOG.clear()
        FAIL["n"], FAIL["max"] = 0, (spec["epochs"] + 5) * 8
        try:
            cfg = self.fit(spec, tools)
        except Endless:
            return out.fail("steps", f"more than {FAIL['max']} steps for {len(spec['facets'])} facets with a budget of {spec['epochs']} epochs")
        log = list(LOG)
        LOG.clear()
        out.stats["optimizer_steps"] += sum(r[0] == "step" for r in log)
        out.nontrivial = len(spec["facets"]) > 1 and sum(r[0] == "step" for r in log) > 1
        import hashlib
        import json
        out.sig = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        if len(cfg.facet_list) != len(spec["facets"]):
            return out.fail("facets", f"{len(spec['facets'])} facets are given, the surface has {len(cfg.facet_list)}")
        # one list of steps per facet: a fit works on one tensor
        runs = []
        for r in log:
            if r[0] == "step":
                if len(r[4]) != 1:
                    return out.fail("parameters", f"a facet is fitted by moving {len(r[4])} tensors")
                if not runs or runs[-1]["tensor"] is not r[4][0]:
                    runs.append(dict(tensor=r[4][0], p=[], g=[], lr=[], loss=[], end=None))
                runs[-1]["p"].append(r[1][0])
                runs[-1]["g"].append(r[2][0])
                runs[-1]["lr"].append(r[3])
            elif runs:
                if r[0] == "moved":
                    runs[-1]["end"] = r[1][0]
                else:
                    runs[-1]["loss"].append(r[1])
        if len(runs) != len(spec["facets"]):
            return out.fail("steps", f"{len(spec['facets'])} facets are given, {len(runs)} are fitted")
        n_min = min(f["n"] for f in spec["facets"])
        for i, (f, r, got) in enumerate(zip(spec["facets"], runs, cfg.facet_list)):
            name = f"facet {i + 1} of {len(runs)}"
            pts, nor = (x[:n_min][:: spec["step"]] for x in measured(f))
            uv = parameters(pts)
            cps, w = spec["cps"], (pts.double().max(0).values - pts.double().min(0).values)
            start = torch.zeros(*cps, 3, dtype=torch.float64)
            start[..., 0] = torch.linspace(-w[0] / 2, w[0] / 2, cps[0], dtype=torch.float64)[:, None]
            start[..., 1] = torch.linspace(-w[1] / 2, w[1] / 2, cps[1], dtype=torch.float64)[None, :]
            first = r["p"][0].reshape(-1, 3)
            if first.numel() != start.numel() or not close(first.reshape(start.shape), start, 1e-5):
                return out.fail("start", f"{name}: the fit does not start from the flat facet of {w[0]:.2f} m x {w[1]:.2f} m, but from control points spanning {[round(float(x), 3) for x in (first.max(0).values - first.min(0).values)]}")
            ended, past = None, False
            for k, (p, g) in enumerate(zip(r["p"], r["g"])):
                q = p.reshape(start.shape).double().requires_grad_()
                loss = error(pts, nor, q, uv, spec["degrees"], spec["method"])
                (want,) = torch.autograd.grad(loss, q)
                if g is None:
                    return out.fail("gradient", f"{name}, step {k}: no gradient")
                scale = float(want.abs().max())
                if not close(g.reshape(start.shape), want, 5e-3 * scale + 5e-7):
                    return out.fail("gradient", f"{name}, step {k}: the correction ({spec['method']}) is not that of its own data: gradients up to {float(g.abs().max()):.3e} instead of {scale:.3e}, differing by {float((g.reshape(start.shape).double() - want).abs().max()):.2e}")
                if case["sched"] and (k >= len(r["loss"]) or abs(r["loss"][k] - float(loss)) > 5e-3 * float(loss) + 1e-10):
                    return out.fail("loss", f"{name}, step {k}: the scheduler is given {r['loss'][k] if k < len(r['loss']) else 'nothing'} instead of the loss {float(loss):.3e}")
                if abs(float(loss) - spec["tol"]) < 2e-2 * spec["tol"] + 2e-11:
                    past = True           # too close to call
                elif float(loss) < spec["tol"] and ended is None:
                    ended = k
            want_steps = min(spec["epochs"] + 1, ended + 1 if ended is not None else 10 ** 9)
            if len(r["p"]) > spec["epochs"] + 1 or (not past and len(r["p"]) != want_steps):
                return out.fail("steps", f"{name}: {len(r['p'])} steps, expected {want_steps} (budget {spec['epochs']}, tolerance {spec['tol']:g})")
            if r["lr"][0] != case["lr"]:
                return out.fail("rate", f"{name}: the first step uses the learning rate {r['lr'][0]:g}, configured {case['lr']:g}")
            end = r["end"].reshape(start.shape).double()
            at = torch.tensor(f["at"], dtype=torch.float64)
            if spec["method"] == "normals":
                end = end + at
            if not close(got.control_points, end, 1e-5):
                return out.fail("result", f"{name}: the control points of the surface are not those fitted to its data" + (" at its place" if spec["method"] == "normals" else ""))
            if torch.as_tensor(got.degrees).tolist() != spec["degrees"] or not close(got.canting, canting_of(f), 1e-6):
                return out.fail("result", f"{name}: degrees or canting are not its own")
            if spec["method"] == "normals" and not close(torch.as_tensor(got.translation_vector)[:3], at, 1e-6):
                return out.fail("result", f"{name}: the translation is not its own")
        return out

    # ---------------------------------------------------------------- loaded surfaces
    def run_load(self, case):
        out = Out()
        cfgs, want = [], []
        for f in case["fits"]:
            if f["ideal"]:
                gen = SurfaceGenerator(number_of_control_points=torch.tensor(f["cps"]), degrees=torch.tensor(f["degrees"]), device=DEV)
                cfg = gen.generate_ideal_surface_config(facet_translation_vectors=torch.stack([torch.tensor(x["at"] + [0.0]) for x in f["facets"]]), canting=torch.stack([canting_of(x) for x in f["facets"]]), device=DEV)
                for i, (x, got) in enumerate(zip(f["facets"], cfg.facet_list)):
                    ref = torch.zeros(*f["cps"], 3, dtype=torch.float64)
                    w, h = x["size"]
                    ref[..., 0] = torch.linspace(-w / 2, w / 2, f["cps"][0], dtype=torch.float64)[:, None]
                    ref[..., 1] = torch.linspace(-h / 2, h / 2, f["cps"][1], dtype=torch.float64)[None, :]
                    if not close(got.control_points, ref, 1e-5) or torch.as_tensor(got.degrees).tolist() != f["degrees"] or not close(got.canting, canting_of(x), 1e-6) or not close(torch.as_tensor(got.translation_vector)[:3], torch.tensor(x["at"]), 1e-6):
                        return out.fail("ideal", f"facet {i + 1}: an ideal surface is not the flat facet of {w} m x {h} m with its own canting and place")
            else:
                o = tool("adam", 1e-3)
                LOG.clear()
                FAIL["n"], FAIL["max"] = 0, 200
                cfg = self.fit(f, (o, None))
                LOG.clear()
            cfgs.append(cfg)
            rows = []
            flat = all(bool((x.control_points[..., 2] == 0).all()) for x in cfg.facet_list)
            for x in cfg.facet_list:
                p, n = evaluate(x.control_points.double(), f["degrees"], grid(case["points"]))
                if flat:
                    p, n = canted(x.canting, p) + torch.as_tensor(x.translation_vector)[:3].double(), canted(x.canting, n)
                rows.append((p, n))
            want.append((flat, torch.cat([a for a, _ in rows]), torch.cat([b for _, b in rows])))
        spec = world.default_spec(groups=[{"act": case["act"], "n": len(cfgs)}], facets=len(case["fits"][0]["facets"]), cps=4, seed=case["seed"])
        full = world.configs(spec)
        for h, cfg in zip(full["heliostat_list_config"].heliostat_list, cfgs):
            h.surface = cfg
        path = os.path.join(".", f"c13-{os.getpid()}.h5")
        H5ScenarioGenerator(file_path=pathlib.Path(path), **full).generate_scenario()
        bend = case["bend"] and all(w[0] for w in want) and case["points"][0] == case["points"][1]
        job = sim.Job(case["world"], case["sched"])

        def body(p):
            with h5py.File(path) as f:
                sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor(case["points"]), device=DEV)
            g = sc.heliostat_field.heliostat_groups[0]
            res = [(g.names, g.surface_points.clone(), g.surface_normals.clone())]
            if bend:
                gen = torch.Generator().manual_seed(case["seed"])
                with torch.no_grad():
                    g.nurbs_control_points[..., 2] += 1e-3 * torch.rand(g.nurbs_control_points.shape[:-1], generator=gen)
                sc.heliostat_field.update_surfaces(device=DEV)
                res.append((g.nurbs_control_points.detach().clone(), g.surface_points.clone(), g.surface_normals.clone()))
            return res
        try:
            job.run(body)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        job.account(out)
        out.nontrivial = True
        if job.outcomes() != ["ok"] * case["world"]:
            return out.fail("load", f"loading a scenario with generated surfaces: {job.describe()}")
        for rank, p in enumerate(job.procs):
            names, points, normals = p.result[0]
            for i, (flat, wp, wn) in enumerate(want):
                k = list(names).index(f"H{i:03d}")
                if not close(points[k][:, :3], wp, 2e-5) or not close(normals[k][:, :3], wn, 2e-4):
                    return out.fail("surface", f"rank {rank}, heliostat {i + 1}: the loaded {'ideal' if flat else 'fitted'} surface is not that of its configuration (points differ by {self.gap(points[k][:, :3], wp)}, normals by {self.gap(normals[k][:, :3], wn)})")
            if len(p.result) > 1:
                cps, points, normals = p.result[1]
                for i, f in enumerate(case["fits"]):
                    k = list(names).index(f"H{i:03d}")
                    rows = [(evaluate(cps[k, j].double(), f["degrees"], grid(case["points"])), x) for j, x in enumerate(cfgs[i].facet_list)]
                    wp = torch.cat([canted(x.canting, a) + torch.as_tensor(x.translation_vector)[:3].double() for (a, _), x in rows])
                    wn = torch.cat([canted(x.canting, b) for (_, b), x in rows])
                    if not close(points[k][:, :3], wp, 2e-5) or not close(normals[k][:, :3], wn, 2e-4):
                        return out.fail("update", f"rank {rank}, heliostat {i + 1}: after an update the surface is not that of its control points (points differ by {self.gap(points[k][:, :3], wp)}, normals by {self.gap(normals[k][:, :3], wn)})")
        return out

    @staticmethod
    def gap(a, b):
        return f"{float((a.double() - b.double()).abs().max()):.1e}" if a.shape == b.shape else f"shape {tuple(a.shape)}"

    def shrink(self, case):
        if case["kind"] == "load":
            yield from sim.shrink_sched(case)
            if case["world"] > 1:
                yield dict(case, world=1, sched={"seed": 0, "mode": "fifo"})
            for fits in (case["fits"][:1], case["fits"][1:]):
                if fits and len(fits) < len(case["fits"]):
                    yield dict(case, fits=fits)
            if case["bend"]:
                yield dict(case, bend=False)
            return
        yield from sim.shrink_list(case, "earlier")
        m = case["main"]
        for k in range(len(m["facets"])):
            if len(m["facets"]) > 1:
                yield dict(case, main=dict(m, facets=m["facets"][:k] + m["facets"][k + 1:]))
        if m["epochs"]:
            yield dict(case, main=dict(m, epochs=m["epochs"] // 2))
        if case["sched"]:
            yield dict(case, sched=False)


CHECK = Check()
