"""Set-ups: a JSON description of a simulation, its random generation, and its assembly
through the library's public builder."""
import math
import random

import numpy as np


def _block(rng, dim, center, nside, spacing, jitter):
    ax = [(np.arange(n) - (n - 1) / 2) * spacing for n in nside]
    g = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, dim)
    r = np.random.RandomState(rng)
    g = g + (r.rand(*g.shape) - 0.5) * jitter * spacing
    return g + np.asarray(center)


def gen_law(rng, kinds=None):
    k = rng.choice(kinds or ["le", "nf", "mui", "mcc", "dp"])
    if k == "le":
        return {"type": "le", "E": rng.choice([1e2, 1e4, 2e5]), "nu": rng.choice([0.0, 0.2, 0.35]),
                "reset": rng.random() < 0.7}
    if k == "nf":
        return {"type": "nf", "K": rng.choice([1e3, 1e4]), "viscosity": rng.choice([1e-3, 1.0]), "beta": 7.0}
    if k == "mui":
        return {"type": "mui", "mu_s": 0.38, "mu_d": 0.57, "I_0": 0.279, "d_p": 0.005, "K": rng.choice([1e4, 1e5]),
                "rho_p": 2000.0, "alpha": 1e-3}
    if k == "mcc":
        return {"type": "mcc", "nu": 0.3, "M": 1.2, "lam": 0.025, "kap": 0.005, "N": 1.7, "p_ref": 1000.0,
                "K_min": 1e4, "K_max": 1e6, "p0": rng.choice([500.0, 1000.0]), "ocr": rng.choice([1.0, 2.0])}
    return {"type": "dp", "K": rng.choice([1e4, 1e5]), "nu": 0.3, "mu_1": 0.4, "mu_2": 0.2, "c0": rng.choice([0.0, 50.0]),
            "mu_1_hat": 0.1, "H": rng.choice([0.0, 10.0]), "rho_0": 1000.0}


def gen_solver(rng, schemes=None):
    s = rng.choice(schemes or ["usl", "usl_aflip", "usl_aflip"])
    if s == "usl":
        return {"scheme": "usl", "params": {"alpha": rng.choice([0.0, 0.5, 0.95, 0.99, 1.0])}}
    p = {"alpha": rng.choice([0.0, 0.5, 0.99, 1.0]), "use_dynamic_alpha": rng.random() < 0.5,
         "use_mls_update": rng.random() < 0.6}
    if rng.random() < 0.5:
        p["beta_max"] = rng.choice([0.0, 0.5, 1.0])
        p["beta_min"] = rng.choice([0.0, 0.3])
    if rng.random() < 0.3:
        p["cfl_limit"] = rng.choice([0.2, 0.8])
    return {"scheme": rng.choice(["usl_aflip", "usl_aflip", "USL_AFLIP"]), "params": p}


def gen_sdf(rng, dim, h, moving=True):
    t = rng.choice(["plane", "sphere", "box", "domain"])
    s = {"type": t, "friction": rng.choice([None, 0.0, 0.3, 1.0]), "gap": 1e-4}
    if t == "plane":
        n = [rng.gauss(0, 0.3) for _ in range(dim)]
        n[-1] = 1.0
        s["normal"] = n
        s["pos"] = [0.5] * (dim - 1) + [0.15 * 1.0]
    elif t == "sphere":
        s["radius"] = rng.uniform(0.05, 0.12)
        s["pos"] = [0.5 + rng.uniform(-0.1, 0.1) for _ in range(dim - 1)] + [0.15]
    elif t == "box":
        s["size"] = [rng.uniform(0.1, 0.4) for _ in range(dim)]
        s["pos"] = [0.5 + rng.uniform(-0.1, 0.1) for _ in range(dim - 1)] + [0.1]
    else:
        s["origin"] = [0.05] * dim
        s["end"] = [0.95] * dim
        s["friction_walls"] = rng.choice([0.0, 0.5])
    if t != "domain" and moving and rng.random() < 0.6:
        s["vel"] = [rng.uniform(-0.3, 0.3) for _ in range(dim)]
        s["angvel"] = rng.uniform(-2, 2) if dim == 2 else [rng.uniform(-2, 2) for _ in range(3)]
        if rng.random() < 0.5:
            if dim == 2:
                s["rot"] = rng.uniform(-1, 1)
            else:
                q = np.array([rng.gauss(0, 1) for _ in range(4)])
                s["rot"] = list(map(float, q / np.linalg.norm(q)))
    s["collider"] = rng.random() < 0.8
    return s


def uneven(rng, grid, most=2):
    """The grid, reaching a different number of whole cells further along each axis."""
    h = grid["h"]
    return dict(grid, origin=[o - h * rng.randint(0, most) for o in grid["origin"]], end=[e + h * rng.randint(0, most) for e in grid["end"]])


def gen_spec(rng, *, dims=(2, 2, 3), max_bodies=3, sdfs=True, damping=True, rigid=True, laws=None, schemes=None,
             multi_grid=True, shapes=("linear", "quadratic", "cubic"), one_particle=True):
    dim = rng.choice(dims)
    h = rng.choice([0.1, 0.125, 0.2] if dim == 2 else [0.2, 0.25])
    ngrids = 2 if multi_grid and rng.random() < 0.3 else 1
    spec = {"dim": dim, "grids": [], "bodies": [], "sdfs": [], "forces": []}
    for i in range(ngrids):
        hi = h if i == 0 or rng.random() < 0.4 else h * rng.choice([0.8, 0.7])
        spec["grids"].append(uneven(rng, {"origin": [0.0] * dim, "end": [1.0] * dim, "h": hi, "padding": rng.choice([2, 3])}, 2 if dim == 2 else 1))
    nb = rng.randint(1, max_bodies)
    for b in range(nb):
        ns = [rng.randint(2, 5 if dim == 2 else 3) for _ in range(dim)]
        if one_particle and rng.random() < 0.1:
            ns = [1] * dim
        on = rng.randrange(ngrids)
        body = {"center": [0.5 + rng.uniform(-0.15, 0.15) for _ in range(dim)], "n": ns,
                "spacing": spec["grids"][on]["h"] / rng.choice([2, 2, 3]), "jitter": rng.choice([0.0, 0.3]), "seed": rng.randrange(1 << 30),
                "vel": [rng.uniform(-0.5, 0.5) for _ in range(dim)], "vgrad": rng.choice([0.0, 0.0, 1.0, 3.0]),
                "rho": rng.choice([1000.0, 1500.0]), "g": on, "law": gen_law(rng, laws),
                "shape": rng.choice(shapes), "store_F": rng.random() < 0.3}
        spec["bodies"].append(body)
    if rigid and rng.random() < 0.15:
        spec["bodies"].append({"rigid": True, "center": [0.5] * dim, "n": [2] * dim, "spacing": h / 2, "jitter": 0.0, "seed": 1,
                               "g": 0, "shape": rng.choice(shapes)})
    if sdfs and rng.random() < 0.6:
        for _ in range(rng.randint(1, 2)):
            spec["sdfs"].append(gen_sdf(rng, dim, h))
    if rng.random() < 0.8:
        spec["forces"].append({"type": "gravity", "g": [0.0] * (dim - 1) + [-9.81], "on_grid": rng.random() < 0.7})
    if damping and rng.random() < 0.3:
        spec["forces"].append({"type": "damping", "alpha": rng.choice([0.02, 0.2]), "on_grid": rng.random() < 0.7})
    spec["solver"] = gen_solver(rng, schemes)
    spec["arrays"] = rng.random() < 0.8      # clock starts as arrays instead of Python numbers
    return spec


def make_law(l):
    from hydraxmpm.constitutive_laws.druckerprager import DruckerPrager
    from hydraxmpm.constitutive_laws.linearelastic import LinearElasticLaw
    from hydraxmpm.constitutive_laws.modifiedcamclay import ModifiedCamClay
    from hydraxmpm.constitutive_laws.mu_i_rheology import MuI_LC
    from hydraxmpm.constitutive_laws.newtonfluid import NewtonFluid
    t = l["type"]
    if t == "le":
        return LinearElasticLaw(E=l["E"], nu=l["nu"], requires_F_reset=l.get("reset", True))
    if t == "nf":
        return NewtonFluid(K=l["K"], viscosity=l["viscosity"], beta=l["beta"])
    if t == "mui":
        return MuI_LC(**{k: l[k] for k in ("mu_s", "mu_d", "I_0", "d_p", "K", "rho_p", "alpha")})
    if t == "mcc":
        return ModifiedCamClay(**{k: l[k] for k in ("nu", "M", "lam", "kap", "N", "p_ref", "K_min", "K_max", "rho_p") if k in l})
    return DruckerPrager(**{k: l[k] for k in ("K", "nu", "mu_1", "mu_2", "c0", "mu_1_hat", "H", "rho_0")})


def make_sdf(s):
    import jax.numpy as jnp
    from hydraxmpm.sdf import sdfcollection as S
    t = s["type"]
    if t == "plane":
        return S.PlaneSDF(normal=jnp.array(s["normal"]))
    if t == "sphere":
        return S.SphereSDF(radius=s["radius"])
    if t == "box":
        return S.BoxSDF(size=jnp.array(s["size"]))
    if t == "capsule":
        return S.CapsuleSDF(radius=s["radius"], height=s["height"])
    if t == "cylinder":
        return S.CylinderSDF(radius=s["radius"], height=s["height"])
    if t == "torus":
        return S.TorusSDF(major_r=s["major"], minor_r=s["minor"])
    if t == "star":
        return S.StarSDF()
    if t == "hollow":
        return S.HollowCylinderSDF(height=s["height"], outer_radius=s["outer"], inner_radius=s["inner"], is_2d_ring=s["ring"])
    if t == "composite":
        return S.CompositeSDF([make_sdf(p) for p in s["parts"]], [0.1, 0.7][:len(s["parts"])])
    if t == "gridsdf":
        return grid_sdf(s)
    return S.DomainSDF(origin=s["origin"], end=s["end"], frictions=s.get("friction_walls", 0.0))


_grid_file = []


def voxels():
    """Distance values of an off-centre blob on a 17^3 lattice over [-0.5, 0.5]^3."""
    ax = np.linspace(-0.5, 0.5, 17)
    x, y, z = np.meshgrid(ax, ax, ax, indexing="ij")
    return (np.sqrt((x - 0.1) ** 2 + 1.5 * y ** 2 + 2 * z ** 2) - 0.25).astype(np.float32)


def grid_sdf(s):
    """A voxel distance field of an off-centre ellipsoid-like blob, from a file as the library reads it."""
    from hydraxmpm.sdf.gridsdf import GridSDF
    from . import env
    import os
    if not _grid_file:
        f = os.path.join(env.scratch(), f"grid-{os.getpid()}.npz")
        np.savez(f, sdf=voxels(), min=np.full(3, -0.5, np.float32), max=np.full(3, 0.5, np.float32))
        _grid_file.append(f)
    return GridSDF(_grid_file[0], **{q: s[q] for q in ("thickness", "scale") if q in s})


def body_arrays(spec, b):
    dim = spec["dim"]
    x = _block(b["seed"], dim, b["center"], b["n"], b["spacing"], b["jitter"])
    if b.get("rigid"):
        return {"x": x}
    r = np.random.RandomState((b["seed"] ^ 0x5bd1) & 0x7fffffff)
    A = (r.rand(dim, dim) - 0.5) * 2 * b["vgrad"]
    v = np.asarray(b["vel"]) + (x - np.asarray(b["center"])) @ A.T
    vol = np.full(len(x), b["spacing"] ** dim)
    return {"x": x, "v": v, "vol": vol, "rho": np.full(len(x), b["rho"])}


class Registration:
    """The registration calls of a set-up, in an order that can be permuted."""

    def __init__(self, spec):
        self.spec = spec
        self.tasks = []
        for i in range(len(spec["grids"])):
            self.tasks.append(("grid", i))
        for i, b in enumerate(spec["bodies"]):
            self.tasks.append(("body", i))
            if not b.get("rigid"):
                self.tasks.append(("law", i))
            self.tasks.append(("couple", i))
        for i, s in enumerate(spec["sdfs"]):
            self.tasks.append(("sdf", i))
            if s.get("collider", True):
                self.tasks.append(("collider", i))
        for i in range(len(spec["forces"])):
            self.tasks.append(("force", i))

    def needs(self, t):
        """Tasks that must precede t: what the call names must exist."""
        k, i = t
        sp = self.spec
        if k == "couple":
            b = sp["bodies"][i]
            out = {("grid", b["g"]), ("body", i)}
            if not b.get("rigid"):
                out.add(("law", i))
            return out
        if k == "collider":
            return {("sdf", i)} | {("grid", g) for g in range(len(sp["grids"]))}
        if k == "force":
            return {("grid", g) for g in range(len(sp["grids"]))} | {("body", b) for b in range(len(sp["bodies"]))}
        return set()

    def random_order(self, rng):
        left, done, out = list(self.tasks), set(), []
        # forces that act on each other's result keep their relative order: damping acts on the
        # forces registered before it, and colliders are applied one after the other
        chain = {}
        for kind in (lambda t: t[0] == "force" and any(f["type"] == "damping" for f in self.spec["forces"]), lambda t: t[0] == "collider"):
            prev = None
            for t in self.tasks:
                if kind(t):
                    if prev:
                        chain[t] = prev
                    prev = t
        while left:
            ready = [t for t in left if self.needs(t) <= done and (t not in chain or chain[t] in done)]
            t = rng.choice(ready)
            left.remove(t)
            done.add(t)
            out.append(t)
        return out


def build(spec, order=None, dt=None, hook=None, omit=None):
    """Assemble through SimBuilder.  Returns (solver, state, index maps).
    hook(task) is called between registration calls (a scheduling point).
    omit: a random.Random; arguments whose documented default is what is wanted are then left out half the time."""
    import equinox as eqx
    import jax.numpy as jnp
    from hydraxmpm.common.builder import SimBuilder
    dim = spec["dim"]
    bld = SimBuilder()
    ix = {"grid": {}, "body": {}, "law": {}, "couple": {}, "sdf": {}, "force": {}, "collider": {}}
    reg = Registration(spec)
    for t in (order or reg.tasks):
        k, i = t
        if hook:
            hook(t)
        if k == "grid":
            g = spec["grids"][i]
            ix[k][i] = bld.add_grid(origin=tuple(g["origin"]), end=tuple(g["end"]), cell_size=g["h"], padding=g["padding"])
        elif k == "body":
            b = spec["bodies"][i]
            a = body_arrays(spec, b)
            if b.get("rigid"):
                ix[k][i] = bld.add_material_points(position_stack=jnp.array(a["x"]), is_rigid=True)
                continue
            kw = {}
            l = b["law"]
            if l["type"] == "mcc":
                law = make_law(l)
                p = jnp.full(len(a["x"]), l["p0"])
                st, stress, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.full(len(a["x"]), l["ocr"]))
                kw["stress_stack"] = stress
                kw["mass_stack"] = jnp.array(a["vol"]) * rho
            else:
                kw["mass_stack"] = jnp.array(a["vol"] * a["rho"])
            if l["type"] == "dp" and l.get("p0"):
                kw["stress_stack"] = jnp.tile(l["p0"] * jnp.eye(3), (len(a["x"]), 1, 1))
            if b.get("stress0") is not None:
                s0 = np.zeros((3, 3))
                s0[:] = b["stress0"]
                kw["stress_stack"] = jnp.tile(jnp.array(s0), (len(a["x"]), 1, 1))
            ix[k][i] = bld.add_material_points(position_stack=jnp.array(a["x"]), velocity_stack=jnp.array(a["v"]),
                                               volume_stack=jnp.array(a["vol"]), store_F=b.get("store_F", False), **kw)
        elif k == "law":
            b = spec["bodies"][i]
            l = b["law"]
            a = body_arrays(spec, b)
            law = make_law(l)
            rho = jnp.array(a["rho"])
            if l["type"] in ("nf", "mui"):
                ix[k][i] = bld.add_constitutive_law(law=law, density_stack=rho)
            elif l["type"] == "le":
                ix[k][i] = bld.add_constitutive_law(law=law)
            elif l["type"] == "mcc":
                n = len(a["x"])
                st, *_ = law.create_state_from_ocr(p_stack=jnp.full(n, l["p0"]), ocr_stack=jnp.full(n, l["ocr"]))
                ix[k][i] = bld.add_constitutive_law(law=law, law_state=st)
            else:
                st = law.create_state(jnp.tile(l.get("p0", 0.0) * jnp.eye(3), (len(a["x"]), 1, 1)))
                ix[k][i] = bld.add_constitutive_law(law=law, law_state=st)
        elif k == "couple":
            b = spec["bodies"][i]
            kw = {"p_idx": ix["body"][i], "g_idx": ix["grid"][b["g"]], "shapefunction": b["shape"]}
            if not b.get("rigid"):
                kw["c_idx"] = ix["law"][i]
            if omit:       # the last one registered is the default; cubic is the default kernel
                last = {"p_idx": len(ix["body"]) - 1, "g_idx": len(ix["grid"]) - 1, "c_idx": len(ix["law"]) - 1, "shapefunction": "cubic"}
                kw = {a: v for a, v in kw.items() if v != last[a] or omit.random() < 0.5}
            ix[k][i] = bld.couple(**kw)
        elif k == "sdf":
            s = spec["sdfs"][i]
            kw = {}
            if s.get("vel") is not None:
                kw["velocity"] = jnp.array(s["vel"])
            if s.get("angvel") is not None:
                kw["angular_velocity"] = s["angvel"] if dim == 2 else jnp.array(s["angvel"])
            if s.get("rot") is not None:
                kw["rotation"] = s["rot"] if dim == 2 else jnp.array(s["rot"])
            pos = s.get("pos")
            if pos is None:
                pos = [0.5 * (a_ + b_) for a_, b_ in zip(s["origin"], s["end"])]
            ix[k][i] = bld.add_sdf_object(sdf_logic=make_sdf(s), center_of_mass=jnp.array(pos), **kw)
        elif k == "collider":
            s = spec["sdfs"][i]
            kw = {"gap": s.get("gap", 1e-4)}
            if s.get("friction") is not None:
                kw["friction"] = s["friction"]
            if s.get("grids") is not None:
                kw["g_idx_list"] = [ix["grid"][g] for g in s["grids"]]
            kw["sdf_idx"] = ix["sdf"][i]
            if omit:
                last = {"sdf_idx": len(ix["sdf"]) - 1, "gap": 1e-4, "friction": 1.0, "g_idx_list": list(range(len(spec["grids"])))}
                kw = {a: v for a, v in kw.items() if v != last[a] or omit.random() < 0.5}
            ix[k][i] = bld.add_sdf_collider(**kw)
        else:
            f = spec["forces"][i]
            kw = {"is_apply_on_grid": f["on_grid"]}
            if f.get("grids") is not None:
                kw["g_idx_list"] = [ix["grid"][g] for g in f["grids"]]
            bodies = f.get("bodies")
            if bodies is None:   # rigid bodies carry no external force
                bodies = [j for j, b in enumerate(spec["bodies"]) if not b.get("rigid")]
            kw["p_idx_list"] = [ix["body"][j] for j in bodies]
            if omit and f["on_grid"] and omit.random() < 0.5:
                del kw["p_idx_list"]          # a force on the grid names no bodies
            if f["type"] == "gravity":
                ix[k][i] = bld.add_gravity(gravity=jnp.array(f["g"]), **kw)
            else:
                ix[k][i] = bld.add_damping(alpha=f["alpha"], **kw)
    if hook:
        hook(("solver", 0))
    part, use = {}, spec.get("use", {})
    if "bodies" in use:
        part["b_idx_list"] = sorted(ix["couple"][i] for i in use["bodies"])
    if "forces" in use:
        part["f_idx_list"] = sorted([ix["force"][i] for i in use["forces"]] + [ix["collider"][i] for i in use["colliders"] if i in ix["collider"]])
    bld.set_solver(scheme=spec["solver"]["scheme"], **part, **spec["solver"]["params"])
    if hook:
        hook(("build", 0))
    d = dt if dt is not None else safe_dt(spec)
    solver, state = bld.build(dt=d, **spec.get("build_kw", {}))
    if spec.get("arrays"):
        state = eqx.tree_at(lambda s: (s.time, s.step, s.dt), state,
                            (jnp.asarray(state.time, jnp.float32), jnp.asarray(state.step, jnp.int32), jnp.asarray(state.dt, jnp.float32)))
    return solver, state, ix


def wave_speed(l, rho):
    t = l["type"]
    if t == "le":
        E, nu = l["E"], l["nu"]
        M = E * (1 - nu) / ((1 + nu) * (1 - 2 * nu))
        return math.sqrt(M / rho)
    if t == "nf":
        return math.sqrt(l["K"] * l["beta"] / rho)
    if t == "mui":
        return math.sqrt(2 * l["K"] / rho)
    if t == "mcc":
        return math.sqrt(2 * l["K_max"] / 1000.0)
    return math.sqrt(2 * l["K"] / rho)


def safe_dt(spec, frac=0.2):
    h = min(g["h"] for g in spec["grids"])
    c = 1.0
    for b in spec["bodies"]:
        if b.get("rigid"):
            continue
        v = math.hypot(*b["vel"]) + b["vgrad"] * 0.5 + 1.5
        c = max(c, wave_speed(b["law"], b["rho"]) + v)
    return frac * h / c


class Sim:
    """A built set-up with a compiled step function."""

    def __init__(self, spec, order=None, dt=None, hook=None):
        import jax
        self.spec = spec
        self.solver, self.state0, self.ix = build(spec, order, dt, hook)
        solver = self.solver
        self.step = jax.jit(lambda s: solver(s))


def with_dt(state, dt, arrays=None):
    """Change dt the way a driver script does."""
    import equinox as eqx
    import jax.numpy as jnp
    if hasattr(state.dt, "dtype"):
        dt = jnp.asarray(dt, state.dt.dtype)
    return eqx.tree_at(lambda s: s.dt, state, dt)


def describe(spec):
    return {"dim": spec["dim"], "grids": len(spec["grids"]),
            "bodies": [("rigid" if b.get("rigid") else b["law"]["type"]) + "/" + b["shape"] for b in spec["bodies"]],
            "sdfs": [s["type"] for s in spec["sdfs"]], "forces": [f["type"] for f in spec["forces"]], "solver": spec["solver"]}
