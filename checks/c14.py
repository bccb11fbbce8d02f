"""C14: results depend on their inputs only, not on what ran, failed or was interrupted before."""
import hashlib
import os
import random

import h5py
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from dst import recon, sim, world
from dst.runner import Out

from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scenario import Scenario
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import constants
from artist.util import env as aenv

DEV = torch.device("cpu")
EXC = {"memory": lambda: RuntimeError("DefaultCPUAllocator: can't allocate memory"), "interrupt": KeyboardInterrupt, "memory2": MemoryError}


class Bomb(TorchDispatchMode):
    """Numbers the tensor operations of a call; operation number `at` fails instead of running."""

    def __init__(self, at=None, exc="memory"):
        super().__init__()
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        k = self.n
        self.n += 1
        if k == self.at:
            self.fired = True
            raise EXC[self.exc]()
        return func(*args, **(kwargs or {}))


def put_base(g, base):
    """Give a group the base parameters of a snapshot (as a user or an optimiser does, in place)."""
    with torch.no_grad():
        g.kinematics.rotation_deviation_parameters.copy_(base["rot"])
        g.kinematics.translation_deviation_parameters.copy_(base["trans"])
        if base["act"].numel():
            g.kinematics.actuators.optimizable_parameters.copy_(base["act"])
        g.kinematics.motor_positions.copy_(base["motors"])
        g.nurbs_control_points.copy_(base["cps"])
    g.surface_points, g.surface_normals = base["points"].clone(), base["normals"].clone()


def facet(seed):
    """Measured points and normals of a slightly curved facet."""
    gen = torch.Generator().manual_seed(seed)
    xy = torch.rand(30, 2, generator=gen) * 1.2 - 0.6
    a = 2e-3 * (1 + seed)
    n = torch.cat([-2 * a * xy, torch.ones(30, 1)], 1)
    return torch.cat([xy, a * (xy ** 2).sum(1, keepdim=True)], 1), n / n.norm(dim=1, keepdim=True)


def same_base(a, b):
    return next((k for k in a if a[k].shape != b[k].shape or not torch.equal(a[k], b[k])), None)


def close(a, b):
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    same = (a == b) | (torch.isnan(a) & torch.isnan(b))
    finite = b[torch.isfinite(b)]
    scale = float(finite.abs().max()) if finite.numel() else 0.0
    return bool((same | ((a - b).abs() <= 1e-6 * scale + 1e-6 * b.abs() + 1e-12)).all())


class Client:
    """One scenario used step by step, with what a fresh scenario would need to arrive at the same state."""

    def __init__(self, spec, scenario):
        self.spec, self.sc = spec, scenario
        self.groups = [dict(mask=None, base=None, how=None) for _ in spec["groups"]]
        self.start = recon.state(scenario)
        self.base = recon.state(scenario)
        self.around = recon.surroundings(scenario)
        self.tracers = {}
        self.valid = True

    def group(self, gi):
        return self.sc.heliostat_field.heliostat_groups[gi]


def activate(sc, gi, mask):
    sc.heliostat_field.heliostat_groups[gi].activate_heliostats(active_heliostats_mask=None if mask is None else torch.tensor(mask, dtype=torch.int32), device=DEV)


def full(spec, gi, mask):
    return [1] * spec["groups"][gi]["n"] if mask is None else list(mask)


def align(sc, gi, how, mask):
    g = sc.heliostat_field.heliostat_groups[gi]
    m = torch.tensor(mask, dtype=torch.int32)
    if how["by"] == "sun":
        t = torch.tensor(how["targets"], dtype=torch.long)
        aim = sc.solar_tower.get_centers_of_target_areas(target_area_indices=t, device=DEV)
        g.align_surfaces_with_incident_ray_directions(aim_points=aim, incident_ray_directions=torch.tensor(how["suns"]).reshape(-1, 4), active_heliostats_mask=m, device=DEV)
    else:
        g.align_surfaces_with_motor_positions(motor_positions=torch.tensor(how["motors"]).reshape(-1, 2), active_heliostats_mask=m, device=DEV)


def make_tracer(sc, gi, op):
    return HeliostatRayTracer(scenario=sc, heliostat_group=sc.heliostat_field.heliostat_groups[gi], blocking_active=op["blocking"], world_size=op["ranks"], rank=op["rank"], batch_size=op["batch"],
                              random_seed=op["seed"], bitmap_resolution=torch.tensor(op["res"]), dni=op["dni"])


def trace(rt, how, mask, op):
    m = torch.tensor(mask, dtype=torch.int32)
    suns = torch.tensor(how["suns"]).reshape(-1, 4)
    out = rt.trace_rays(incident_ray_directions=suns, active_heliostats_mask=m, target_area_indices=torch.tensor(how["targets"], dtype=torch.long), ray_extinction_factor=op["ext"], mirror_reflectivity=0.9, device=DEV)
    return out


def reference(client, gis, order):
    """A fresh scenario brought to the state the client's groups should be in."""
    sc = world.fresh(client.spec)
    for gi in order:
        if gi in gis:
            st = client.groups[gi]
            put_base(sc.heliostat_field.heliostat_groups[gi], st["base"])
            activate(sc, gi, st["mask"])
            if st["how"]:
                align(sc, gi, st["how"], st["mask"])
    return sc


class Check:
    id = "C14"
    level = "fault_injection"
    rule = "a run has at least one operation preceded by other operations on the same scenario, a failed or interrupted one included in most runs"
    measure = "distinct (operation history, failed tensor operation of each interrupted call, outcome)"
    real = ["HeliostatGroup and kinematics, actuators, HeliostatRayTracer, Sun, reconstructors and aim point optimiser, scenario loading"]
    stub = ["failure or interruption of any tensor operation (dispatch mode)", "the rest of the process (global random state, a second scenario, other groups)"]
    assumptions = ["after a failed activation or alignment the caller activates again before aligning", "aligning a group twice without activating rotates it twice (documented use is activate, align, trace)"]
    tiers = {"quick": dict(cases=260, wall=60), "thorough": dict(cases=8000, wall=1500)}

    # ------------------------------------------------------------ histories
    def gen(self, rng, i, tier):
        groups = [{"act": rng.choice(["linear", "linear", "ideal"]), "n": rng.randint(1, 3)} for _ in range(rng.randint(1, 2))]
        spec = world.default_spec(groups=groups, planar=rng.randint(1, 2), cyl=rng.randint(0, 1), rays=rng.randint(1, 4), points=4, facets=rng.choice([1, 1, 2]), seed=rng.randrange(6), layout=rng.choice(["spread", "dense"]))
        nt = spec["planar"] + spec["cyl"]
        ops = []
        common = world.sun(rng)
        clients = rng.choice([1, 1, 2])

        def how(gi, m, by=None):
            n = sum(m)
            h = dict(by=by or rng.choice(["sun", "sun", "motors"]), targets=[rng.randrange(nt) for _ in range(n)], suns=[common if rng.random() < 0.6 else world.sun(rng) for _ in range(n)])
            if h["by"] == "motors":
                h["motors"] = [[rng.uniform(5000, 60000), rng.uniform(5000, 60000)] if spec["groups"][gi]["act"] == "linear" else [rng.uniform(-0.5, 1.5), rng.uniform(-0.5, 0.5)] for _ in range(n)]
            return h

        def mask(gi, ones=False):
            n = spec["groups"][gi]["n"]
            return [rng.randint(0, 1 if ones else 3) for _ in range(n)]

        def fault(p):
            return dict(at=rng.random(), exc=rng.choice(sorted(EXC))) if rng.random() < p else None

        def tr(c, gi, blocking):
            w = rng.choice([1, 1, 2])
            return dict(op="trace", c=c, g=gi, seed=rng.choice([7, 7, rng.randrange(100)]), batch=rng.choice([1, 2, 50]), blocking=blocking, res=[rng.randint(5, 12), rng.randint(5, 12)], ext=rng.choice([0.0, 0.1]),
                        dni=rng.choice([None, 800.0]), ranks=w, rank=rng.randrange(w), reuse=not blocking and rng.random() < 0.4, grad=not blocking and w == 1 and rng.random() < 0.25, nograd=rng.random() < 0.15, fault=fault(0.35))
        for _ in range(rng.randint(3, 6)):
            c, gi = rng.randrange(clients), rng.randrange(len(groups))
            style = rng.random()
            if style < 0.12:
                ops.append(dict(op="rng", seed=rng.randrange(1000)))
            elif style < 0.16:
                ops.append(dict(op="fit", facets=[rng.randrange(5) for _ in range(rng.randint(1, 3))], method=rng.choice(["fit_from_points", "fit_from_normals"]), epochs=rng.randint(2, 12), fault=fault(0.4)))
            elif style < 0.22:
                ops.append(dict(op="set", c=c, g=gi, seed=rng.randrange(1000), what=rng.choice(["rot", "points", "both"])))
            elif style < 0.30:
                kind = rng.choice(["kin_flux", "kin_align", "surface", "aim"])
                ops.append(dict(op="optimise", c=c, job=recon.gen_job(rng, kind, spec, epochs=(1, 2)), fault=fault(0.5)))
            else:
                if rng.random() < 0.15:
                    ops.append(dict(op="activate", c=c, g=gi, mask=[0] * groups[gi]["n"], mutate=False, fault=None))
                blocking = style < 0.5
                todo = list(range(len(groups))) if blocking else [gi]
                rng.shuffle(todo)
                for x in todo:
                    m = mask(x, ones=blocking)
                    if not any(m):
                        m[rng.randrange(len(m))] = 1
                    none = rng.random() < 0.15
                    ops.append(dict(op="activate", c=c, g=x, mask=None if none else m, mutate=not none and rng.random() < 0.25, fault=fault(0.2)))
                    m = [1] * groups[x]["n"] if none else m
                    if rng.random() < 0.3:
                        bad = list(m)
                        rng.shuffle(bad)
                        if bad == m:
                            bad[rng.randrange(len(bad))] += 1
                        ops.append(dict(op="stale", c=c, g=x, mask=bad, how=how(x, bad)))
                    ops.append(dict(op="align", c=c, g=x, how=how(x, m), fault=fault(0.2)))
                ops.append(tr(c, gi if not blocking else rng.choice(todo), blocking))
                if rng.random() < 0.4:
                    ops.append(tr(c, gi, False))
                if rng.random() < 0.2:
                    ops.append(dict(op="stale_trace", c=c, g=gi))
        return dict(spec=spec, ops=ops, clients=clients, loaded=rng.random() < 0.3)

    # ------------------------------------------------------------ one run
    def run(self, case):
        out = Out()
        held = {}

        def body(p):
            with aenv.setup_distributed_environment(number_of_heliostat_groups=len(case["spec"]["groups"]), device=DEV) as ddp:
                held["done"] = self.history(case, ddp, out)
        rng_state = torch.get_rng_state()
        job = sim.Job(1, dict(seed=0, mode="fifo"), env=False, max_steps=200000).run(body)
        torch.set_rng_state(rng_state)
        out.simtime += job.k.now
        if job.outcomes() != ["ok"] and out.violation is None:
            e = job.procs[0].error
            raise e if isinstance(e, Exception) else RuntimeError(job.describe())
        return out

    def load(self, spec):
        path = f"c14-{os.getpid()}.h5"
        world.write_file(spec, path)
        try:
            with h5py.File(path) as f:
                sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor([spec["points"], spec["points"]]), device=DEV)
        finally:
            os.unlink(path)
        return world.regroup(sc, spec)

    def history(self, case, ddp, out):
        spec = case["spec"]
        world.fresh(spec)
        clients = [Client(spec, self.load(spec) if case["loaded"] and k == 0 else world.fresh(spec)) for k in range(case["clients"])]
        sig = hashlib.sha1()
        self.tools = self.fitting()
        done = 0
        for step, op in enumerate(case["ops"]):
            kind = op["op"]
            self.fired = None
            client = clients[op["c"] % len(clients)] if "c" in op else None
            if client is not None and not client.valid:
                continue
            getattr(self, "do_" + kind)(case, client, op, ddp, out, f"operation {step} ({kind})")
            out.stats[f"op:{kind}"] += 1
            if self.fired:
                out.stats[f"fault:{op['fault']['exc']}"] += 1
            sig.update(repr((kind, op.get("g"), op.get("mask"), self.fired)).encode())
            done += 1
            for k, c in enumerate(clients):
                now = recon.state(c.sc)
                for gi, (a, b) in enumerate(zip(c.base, now)):
                    bad = same_base(a, b)
                    if bad and out.violation is None:
                        out.fail("changed", f"operation {step} ({kind}) changed the parameters of group {gi}{'' if c is client else ' of another scenario'}: {bad}")
                bad = recon.differing(c.around, recon.surroundings(c.sc))
                if bad and out.violation is None:
                    out.fail("changed", f"operation {step} ({kind}) changed {bad}")
            if out.violation:
                break
        out.sig = sig.hexdigest()[:16]
        out.nontrivial = done > 3
        return done

    def call(self, fn, op, count):
        """Run fn with the drawn failing tensor operation; returns (fired, value or None, error or None)."""
        f = op.get("fault")
        if not f:
            return False, fn(), None
        with Bomb() as probe:
            count()
        n = probe.n
        bomb = Bomb(int(f["at"] * n), f["exc"])
        self.fired = None
        try:
            with bomb:
                value = fn()
            err = None
        except BaseException as e:  # noqa: BLE001
            value, err = None, e
        if bomb.fired:
            self.fired = (bomb.at, n)
        elif err is not None:
            raise err
        return bomb.fired, value, err

    def do_rng(self, case, client, op, ddp, out, what):
        torch.manual_seed(op["seed"])
        torch.rand(op["seed"] % 50)
        random.seed(op["seed"])
        np.random.seed(op["seed"])

    def fitting(self):
        """One optimiser and scheduler, as used for all facets and heliostats of a field."""
        opt = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=2e-3)
        return opt, torch.optim.lr_scheduler.ReduceLROnPlateau(opt, factor=0.5, patience=1, threshold=1e-2)

    def do_fit(self, case, client, op, ddp, out, what):
        method = {"fit_from_points": constants.fit_nurbs_from_points, "fit_from_normals": constants.fit_nurbs_from_normals}[op["method"]]

        def fit(tools):
            pts, nor = zip(*[facet(k) for k in op["facets"]])
            n = len(pts)
            cfg = SurfaceGenerator(number_of_control_points=torch.tensor([4, 4]), device=DEV).generate_fitted_surface_config(
                heliostat_name="A", facet_translation_vectors=torch.zeros(n, 4), canting=torch.tensor([[0.6, 0.0, 0.0, 0.0], [0.0, 0.6, 0.0, 0.0]]).repeat(n, 1, 1), surface_points_with_facets_list=list(pts),
                surface_normals_with_facets_list=list(nor), optimizer=tools[0], scheduler=tools[1], deflectometry_step_size=1, fit_method=method, max_epoch=op["epochs"], device=DEV)
            return torch.stack([f.control_points for f in cfg.facet_list])

        def alone():
            # every facet on its own, with tools nobody has used
            rows = []
            for k in op["facets"]:
                o = dict(op, facets=[k])
                rows.append(self.fit_one(o, method))
            return torch.cat(rows)
        shared = self.tools
        fired, got, err = self.call(lambda: fit(shared), op, lambda: fit(self.fitting()))
        if err is not None:
            got = fit(shared)
        if not close(got, alone()):
            return out.fail("history", f"{what}: fitted surfaces depend on the facets fitted before" + (" or on a failed attempt" if err is not None else ""))

    def fit_one(self, op, method):
        opt, sch = self.fitting()
        p, n = facet(op["facets"][0])
        cfg = SurfaceGenerator(number_of_control_points=torch.tensor([4, 4]), device=DEV).generate_fitted_surface_config(
            heliostat_name="A", facet_translation_vectors=torch.zeros(1, 4), canting=torch.tensor([[[0.6, 0.0, 0.0, 0.0], [0.0, 0.6, 0.0, 0.0]]]), surface_points_with_facets_list=[p], surface_normals_with_facets_list=[n],
            optimizer=opt, scheduler=sch, deflectometry_step_size=1, fit_method=method, max_epoch=op["epochs"], device=DEV)
        return torch.stack([f.control_points for f in cfg.facet_list])

    def do_set(self, case, client, op, ddp, out, what):
        gen = torch.Generator().manual_seed(op["seed"])
        g = client.group(op["g"])
        base = client.base[op["g"]]
        if op["what"] in ("rot", "both"):
            base["rot"] = base["rot"] + 5e-4 * torch.randn(base["rot"].shape, generator=gen)
        if op["what"] in ("points", "both"):
            base["points"] = base["points"].clone()
            base["points"][..., 2] += 1e-4 * torch.randn(base["points"].shape[:-1], generator=gen)
        put_base(g, base)

    def do_activate(self, case, client, op, ddp, out, what):
        gi, m = op["g"], full(case["spec"], op["g"], op["mask"])
        given = None if op["mask"] is None else torch.tensor(m, dtype=torch.int32)
        st = client.groups[gi]

        def count():
            sc = world.fresh(case["spec"])
            put_base(sc.heliostat_field.heliostat_groups[gi], client.base[gi])
            with Bomb() as b:
                activate(sc, gi, op["mask"])
            return b.n
        fired, _, err = self.call(lambda: client.group(gi).activate_heliostats(active_heliostats_mask=given, device=DEV), op, count)
        if err is not None:   # the caller tries again
            st.update(mask=None, how=None)
            client.group(gi).activate_heliostats(active_heliostats_mask=given, device=DEV)
        st.update(mask=m, base={k: v.clone() for k, v in client.base[gi].items()}, how=None)
        if op["mutate"]:
            given += 1
            given[0] = 0

    def do_stale(self, case, client, op, ddp, out, what):
        st = client.groups[op["g"]]
        if st["mask"] is None or st["how"] is not None or st["mask"] == op["mask"]:
            return
        before = client.group(op["g"]).active_surface_points.detach().clone()
        try:
            align(client.sc, op["g"], op["how"], op["mask"])
        except Exception:
            if not close(client.group(op["g"]).active_surface_points.detach(), before):
                out.fail("stale", f"{what}: a refused alignment moved the surfaces")
            return
        out.fail("stale", f"{what}: heliostats were aligned with the mask {op['mask']} although {st['mask']} is active")

    def do_stale_trace(self, case, client, op, ddp, out, what):
        st = client.groups[op["g"]]
        if st["mask"] is None or st["how"] is None or len(st["mask"]) < 2 or sum(st["mask"]) == 0:
            return
        m = st["mask"][1:] + st["mask"][:1]
        if m == st["mask"]:
            return
        o = dict(blocking=False, ranks=1, rank=0, batch=10, seed=7, res=[6, 6], dni=None, ext=0.0)
        rt = make_tracer(client.sc, op["g"], o)
        try:
            trace(rt, st["how"], m, o)
        except Exception:
            return
        out.fail("stale", f"{what}: rays were traced with the mask {m} although {st['mask']} is active")

    def do_align(self, case, client, op, ddp, out, what):
        gi = op["g"]
        st = client.groups[gi]
        if st["mask"] is None or st["how"] is not None or sum(st["mask"]) != len(op["how"]["targets"]) or sum(st["mask"]) == 0:
            return

        ref = reference(client, [gi], [gi])
        fired, _, err = self.call(lambda: align(client.sc, gi, op["how"], st["mask"]), op, lambda: align(ref, gi, op["how"], st["mask"]))
        if not op.get("fault"):
            align(ref, gi, op["how"], st["mask"])
        if err is not None:
            activate(client.sc, gi, st["mask"])
            st["base"] = {k: v.clone() for k, v in client.base[gi].items()}
            align(client.sc, gi, op["how"], st["mask"])
            st["how"] = None
            ref = reference(client, [gi], [gi])
            align(ref, gi, op["how"], st["mask"])
        st["how"] = op["how"]
        a, b = client.group(gi), ref.heliostat_field.heliostat_groups[gi]
        for n, x, y in (("surface points", a.active_surface_points, b.active_surface_points), ("surface normals", a.active_surface_normals, b.active_surface_normals)) + (
                (("motor positions", a.kinematics.active_motor_positions, b.kinematics.active_motor_positions),) if op["how"]["by"] == "sun" else ()):
            if not close(x.detach(), y.detach()):
                return out.fail("history", f"{what}: aligned {n} of group {gi} differ from those of a fresh scenario")

    def do_trace(self, case, client, op, ddp, out, what):
        gi, spec = op["g"], case["spec"]
        st = client.groups[gi]
        every = list(range(len(spec["groups"])))
        need = every if op["blocking"] else [gi]
        if any(client.groups[x]["mask"] is None or client.groups[x]["how"] is None or sum(client.groups[x]["mask"]) == 0 for x in need) or (op["blocking"] and any(max(client.groups[x]["mask"]) > 1 for x in every)):
            return
        ref = reference(client, need, [x for x in every if x != gi] + [gi])
        tracer_key = (gi, sum(st["mask"]), op["seed"], op["batch"], tuple(op["res"]), op["dni"], op["ranks"], op["rank"])

        def on(sc, reuse=None):
            grad = None
            with torch.set_grad_enabled(not op["nograd"]):
                rt = reuse or make_tracer(sc, gi, op)
                params = sc.heliostat_field.heliostat_groups[gi].active_surface_normals
                res = trace(rt, st["how"], st["mask"], op)
                if op["grad"] and not op["nograd"] and params.requires_grad:
                    grad = torch.autograd.grad((res[0] * torch.linspace(0, 1, res[0].numel()).reshape(res[0].shape)).sum(), params, retain_graph=True, allow_unused=True)[0]
            return rt, [r.detach() for r in res], None if grad is None else grad.detach()
        reuse = client.tracers.get(tracer_key) if op["reuse"] else None
        held = {}

        def count():
            held["want"] = on(ref)
        fired, got, err = self.call(lambda: on(client.sc, reuse), op, count)
        if err is not None:   # the caller traces again, without activating or aligning
            got = on(client.sc, reuse)
        want = held.get("want") or on(ref)
        if not op["blocking"]:
            client.tracers[tracer_key] = got[0]
        for n, x, y in zip(("bitmaps", "intercept factors", "on-target factors", "blocking factors"), got[1], want[1]):
            if not close(x, y):
                return out.fail("history", f"{what}: {n} of group {gi} differ from those of a fresh scenario" + (" after a failed attempt" if err is not None else "") + (" with a tracer used before" if reuse else ""))
        if got[2] is not None and want[2] is not None and not close(got[2], want[2]):
            return out.fail("history", f"{what}: gradients of group {gi} differ from those of a fresh scenario")
        out.stats["traces"] += 1

    def do_optimise(self, case, client, op, ddp, out, what):
        spec, job = case["spec"], op["job"]
        if job["kind"] == "aim" and client.sc is None:
            return
        if job["kind"] != "aim":
            recon.measurements(spec, job)
        # the optimisation starts from the client's present parameters
        ref = world.fresh(spec)
        for gi, b in enumerate(client.base):
            put_base(ref.heliostat_field.heliostat_groups[gi], b)
        held = {}

        def count():
            held["want"] = recon.run(spec, job, ddp, ref)
        fired, got, err = self.call(lambda: recon.run(spec, job, ddp, client.sc), op, count)
        for st in client.groups:
            st.update(mask=None, how=None)
        client.tracers.clear()
        if err is not None:   # the caller restores the parameters and optimises again
            for gi, b in enumerate(client.base):
                put_base(client.group(gi), b)
            got = recon.run(spec, job, ddp, client.sc)
        want = held.get("want") or recon.run(spec, job, ddp, ref)
        if not close(got["final"].float(), want["final"].float()):
            return out.fail("history", f"{what}: final losses of {job['kind']} differ from those on a fresh scenario" + (" after a failed attempt" if err is not None else ""))
        for gi, (a, b) in enumerate(zip(got["state"], want["state"])):
            bad = next((k for k in a if not close(a[k], b[k])), None)
            if bad:
                return out.fail("history", f"{what}: {bad} of group {gi} after {job['kind']} differ from those on a fresh scenario" + (" after a failed attempt" if err is not None else ""))
        client.base = recon.state(client.sc)
        out.stats["optimisations"] += 1

    def shrink(self, case):
        ops = case["ops"]
        for k in range(len(ops) - 1, -1, -1):
            if len(ops) > 1:
                yield {**case, "ops": ops[:k] + ops[k + 1:]}
        for k, o in enumerate(ops):
            if o.get("fault"):
                yield {**case, "ops": ops[:k] + [{**o, "fault": None}] + ops[k + 1:]}
            for key, v in (("reuse", False), ("grad", False), ("nograd", False), ("mutate", False), ("ranks", 1)):
                if o.get(key) not in (None, v):
                    yield {**case, "ops": ops[:k] + [{**o, key: v, **({"rank": 0} if key == "ranks" else {})}] + ops[k + 1:]}
        if case["loaded"]:
            yield {**case, "loaded": False}


CHECK = Check()
