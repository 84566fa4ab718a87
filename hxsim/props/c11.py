"""C11: registration order does not matter; every coupling, law, force and collider is in effect with its own parameters."""
import copy
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C11", "exploration"
TECHNIQUE = "deterministic simulation: seeded interleavings of the set-up tasks' registration calls, against a reference order, bodies simulated alone, and a force/contact model"
LEVEL_NOTE = ("Seeded search over set-ups and registration schedules. Trajectories are compared over a few steps to round-off (single precision, order of "
              "summation may change); laws are compared by their effect, not by identity.")
GROUP, CHUNK = 4, 4
QUICK, THOROUGH = 96, 4000
XLA = "--xla_backend_optimization_level=0"
RULE = ("each run registers one seeded set-up in one seeded interleaving (arguments left out where their default is the wanted one); half the set-ups are compared "
        "body by body with the plain order and with every grid's bodies simulated alone, half are stress-free uniform bodies whose velocities a force/contact model predicts exactly; "
        "non-trivial if the order differs from the plain one; distinct by event-log digest")
STATE_MEASURE = "registration orders (hash)"
REAL = ["SimBuilder", "solvers, couplings, forces, colliders, laws", "JAX/XLA CPU (lowest optimisation level)"]
STUB = ["none: the scheduler calls the builder"]
ASSUMPTIONS = ["forces that act on each other's result (damping after gravity, overlapping colliders) keep their relative order, as the library documents"]


def make_ctx():
    return {"cache": simrun.Cache(6)}


def gen_effects(grp, g):
    """Uniform, stress-free bodies on grids of their own; forces and planes restricted to some of them.
    Array shapes come from the group (its runs share compiled operations), everything else from the run."""
    run, g = g, grp
    dim = g.choice([2, 2, 2, 3])
    h = 0.1 if dim == 2 else 0.2
    n = g.choice([1, 2, 2, 2, 3])
    spec = {"dim": dim, "grids": [], "bodies": [], "sdfs": [], "forces": []}
    for i in range(n):
        o = g.choice([0.0, -0.05])
        spec["grids"].append({"origin": [-0.6 + o] * dim, "end": [1.6 + h * g.choice([0, 0, 1, 2]) for _ in range(dim)], "h": g.choice([h, h * 0.8]), "padding": g.choice([2, 3])})
        spec["bodies"].append({"center": [0.5 + g.uniform(-0.05, 0.05) for _ in range(dim)], "n": [g.randint(1, 3) for _ in range(dim)], "spacing": h / 2,
                               "jitter": 0.3, "seed": g.randrange(1 << 30), "vel": [g.choice([-1, 1]) * g.uniform(0.3, 1.0) for _ in range(dim)],
                               "vgrad": 0.0, "rho": g.choice([1000.0, 1500.0]), "g": i, "law": {"type": "le", "E": g.choice([1e2, 1e4]), "nu": 0.2, "reset": True},
                               "shape": g.choice(["linear", "quadratic", "cubic"]), "store_F": False})
    g = run
    for b in spec["bodies"]:
        b["vel"] = [g.choice([-1, 1]) * g.uniform(0.3, 1.0) for _ in range(dim)]
    if g.random() < 0.3:
        spec["bodies"].insert(g.randrange(n + 1), {"rigid": True, "center": [0.5] * dim, "n": [2] * dim, "spacing": h / 2, "jitter": 0.0, "seed": 1, "g": 0, "shape": "linear"})
    alive = [i for i, b in enumerate(spec["bodies"]) if not b.get("rigid")]
    some = lambda xs: sorted(g.sample(list(xs), g.randint(1, len(xs))))
    for _ in range(g.randint(0, 3)):
        f = {"type": "gravity", "g": [g.uniform(-10, 10) for _ in range(dim)], "on_grid": g.random() < 0.5} if g.random() < 0.65 else \
            {"type": "damping", "alpha": g.choice([0.05, 0.2, 0.5]), "on_grid": g.random() < 0.5}
        if g.random() < 0.7:
            if f["on_grid"]:
                f["grids"] = some(range(len(spec["grids"])))
            else:
                f["bodies"] = some(alive)
        spec["forces"].append(f)
    for _ in range(g.choice([0, 1, 1, 2])):
        s = {"type": "plane", "normal": [g.gauss(0, 1) for _ in range(dim)], "friction": g.choice([None, 0.0, 0.2, 0.5]), "gap": 1e-4,
             "collider": g.random() < 0.9}
        m = sum(x * x for x in s["normal"]) ** 0.5
        s["normal"] = [x / m for x in s["normal"]]
        s["deep"] = g.random() < 0.75          # the bodies are inside the plane's solid side, or clear of it
        off = (1 if s["deep"] else -1) * 0.85 * (1 if dim == 2 else 2 ** 0.5)
        s["pos"] = [0.5 + x * off for x in s["normal"]]
        if g.random() < 0.5:
            s["vel"] = [g.uniform(-0.5, 0.5) for _ in range(dim)]
        if g.random() < 0.6:
            s["grids"] = some(range(len(spec["grids"])))
        spec["sdfs"].append(s)
    spec["solver"] = spec_mod.gen_solver(g)
    spec["arrays"] = True
    if g.random() < 0.3:          # a solver that is given only some of the bodies or forces
        free = [i for i, b in enumerate(spec["bodies"]) if not b.get("rigid")]
        spec["use"] = {}
        if g.random() < 0.7:
            spec["use"]["bodies"] = some(free)
        if g.random() < 0.7:
            spec["use"]["forces"] = [i for i in range(len(spec["forces"])) if g.random() < 0.6]
            spec["use"]["colliders"] = [i for i in range(len(spec["sdfs"])) if g.random() < 0.6]
    return spec


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    rng = random.Random(seed)
    mode = "effects" if g.random() < 0.6 else "permute"
    if mode == "effects":
        spec = gen_effects(rng, rng)
    else:
        while True:
            spec = spec_mod.gen_spec(g, dims=(2, 2, 2, 3), max_bodies=g.choice([2, 2, 3]), one_particle=False)
            if sum(len(spec[x]) for x in ("bodies", "sdfs", "forces")) > 1:
                break
        if len(spec["grids"]) == 2 and g.random() < 0.5:
            spec["grids"][1]["h"] *= 0.9
        alive = [i for i, b in enumerate(spec["bodies"]) if not b.get("rigid")]
        for f in spec["forces"]:
            if g.random() < 0.5:
                if f["on_grid"]:
                    f["grids"] = sorted(g.sample(range(len(spec["grids"])), g.randint(1, len(spec["grids"]))))
                else:
                    f["bodies"] = sorted(g.sample(alive, g.randint(1, len(alive))))
        for s in spec["sdfs"]:
            if g.random() < 0.4:
                s["grids"] = sorted(g.sample(range(len(spec["grids"])), g.randint(1, len(spec["grids"]))))
    order = spec_mod.Registration(spec).random_order(rng)
    return {"spec": spec, "mode": mode, "order": [list(t) for t in order], "omit": rng.randrange(1 << 30), "init": rng.randrange(1 << 30),
            "steps": [rng.choice([1.0, 0.5, 0.2]) for _ in range(rng.randint(2, 6))]}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "mode": trace["mode"], "order": ["%s%d" % tuple(t) for t in trace["order"]], "steps": trace["steps"]}


def shrink(trace):
    if len(trace["steps"]) > 1:
        yield dict(trace, steps=trace["steps"][:1])
        yield dict(trace, steps=trace["steps"][:-1])
    sp = trace["spec"]
    for key, kinds in (("forces", ("force",)), ("sdfs", ("sdf", "collider"))):
        for i in range(len(sp[key]) if "use" not in sp else 0):
            order = [[t[0], t[1] - (t[0] in kinds and t[1] > i)] for t in trace["order"] if not (t[0] in kinds and t[1] == i)]
            yield dict(trace, spec=dict(sp, **{key: sp[key][:i] + sp[key][i + 1:]}), order=order)


def execute(trace, ctx, res):
    order = [tuple(t) for t in trace["order"]]
    c = simrun.Compiled(trace["spec"], order, omit=random.Random(trace["omit"]))
    res.nontrivial = order != spec_mod.Registration(trace["spec"]).tasks
    res.state(order)
    if trace["mode"] == "effects":
        effects(trace, c, res)
    else:
        permute(trace, c, ctx, res)


# ---------------------------------------------------------------------------

def effects(trace, c, res):
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    f64 = lambda x: np.asarray(x, np.float64)
    st = c.state0
    use = spec.get("use", {})
    dt0 = spec_mod.safe_dt(spec)
    V = {b: f64(np.float32(bd["vel"])) for b, bd in enumerate(spec["bodies"]) if not bd.get("rigid")}
    planes = [f64(s["pos"]) for s in spec["sdfs"]]
    for n, f in enumerate(trace["steps"]):
        st = spec_mod.with_dt(st, dt0 * f)
        dt = float(st.dt)
        prev, st = st, c.step(st)
        res.count("steps")
        res.sim_time += dt
        planes = [p + (f64(s["vel"]) * dt if s.get("vel") else 0.0) for p, s in zip(planes, spec["sdfs"])]
        for b, v in V.items():
            bd = spec["bodies"][b]
            z = st.world.material_points[c.ix["body"][b]]
            x = f64(prev.world.material_points[c.ix["body"][b]].position_stack)
            a = np.zeros(dim)
            unsure = False
            if b not in use.get("bodies", V):
                if not all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in (
                        (getattr(prev.world.material_points[c.ix["body"][b]], y), getattr(z, y)) for y in ("position_stack", "velocity_stack", "F_stack", "stress_stack", "volume_stack"))):
                    raise Violation("effect", f"step {n + 1}: body {b}, which was not given to the solver, changed")
                res.count("left-alone")
                continue
            for on_grid in (False, True):
                for i, fo in enumerate(spec["forces"]):
                    if fo["on_grid"] != on_grid or i not in use.get("forces", [i]):
                        continue
                    if on_grid and bd["g"] not in fo.get("grids", range(len(spec["grids"]))):
                        continue
                    if not on_grid and b not in fo.get("bodies", V):
                        continue
                    if fo["type"] == "gravity":
                        a = a + f64(fo["g"])
                    else:
                        unsure |= bool(np.any((np.abs(v) < 1e-5) & (np.abs(a) > 0)))
                        a = a - fo["alpha"] * np.abs(a) * np.sign(v)
            w = v + a * dt
            h = spec["grids"][bd["g"]]["h"]
            for i, (s, p) in enumerate(zip(spec["sdfs"], planes)):
                if not s["collider"] or i not in use.get("colliders", [i]) or bd["g"] not in s.get("grids", range(len(spec["grids"]))):
                    continue
                nrm = f64(s["normal"])
                d = (x - p) @ nrm
                reach = 2.3 * h * dim ** 0.5
                if np.all(d > reach):
                    continue
                if not np.all(d < -reach):
                    unsure = True
                    continue
                u = f64(s["vel"]) if s.get("vel") else np.zeros(dim)
                vn = float((w - u) @ nrm)
                if vn < 0:
                    rel = (w - u) - vn * nrm
                    t = float(np.linalg.norm(rel))
                    mu = 1.0 if s["friction"] is None else s["friction"]
                    w = u + rel * (max(0.0, 1 - mu * -vn / t) if t > 1e-9 else 0.0)
                    res.count("contacts")
            if unsure:
                res.count("not-judged")
                return
            got = f64(z.velocity_stack)
            tol = 2e-5 * (1 + np.abs(v).max() + np.abs(w).max()) * (n + 1)
            err = np.abs(got - w).max()
            if not err <= tol:
                raise Violation("effect", f"step {n + 1}: body {b} (uniform motion, its own grid) has velocity {got[0].tolist()}, the registered forces and colliders give {w.tolist()} (was {v.tolist()}, dt {dt:.3g})")
            V[b] = w
            res.count("effects-judged")
            res.note(b, got.tobytes())


# ---------------------------------------------------------------------------

def alone(spec, g):
    """The bodies of one grid, with the forces and colliders that act on them, as a set-up of its own."""
    sp = copy.deepcopy(spec)
    keep = [i for i, b in enumerate(spec["bodies"]) if b["g"] == g]
    sp["grids"] = [sp["grids"][g]]
    sp["bodies"] = [dict(sp["bodies"][i], g=0) for i in keep]
    sp["forces"] = []
    for f in spec["forces"]:
        f = copy.deepcopy(f)
        if f["on_grid"]:
            if g not in f.get("grids", range(len(spec["grids"]))):
                continue
            f.pop("grids", None)
            f.pop("bodies", None)
        else:
            mine = [keep.index(b) for b in f.get("bodies", [i for i, b in enumerate(spec["bodies"]) if not b.get("rigid")]) if b in keep and not spec["bodies"][b].get("rigid")]
            if not mine:
                continue
            f["bodies"] = mine
        sp["forces"].append(f)
    sp["sdfs"] = []
    for s in spec["sdfs"]:
        s = dict(copy.deepcopy(s))
        if g not in s.pop("grids", range(len(spec["grids"]))):
            s["collider"] = False
        sp["sdfs"].append(s)
    return sp, keep


def run_from(c, spec, init, steps, dt0, bodies):
    """States of the named bodies after every step."""
    import equinox as eqx
    import numpy as np
    st = c.state0
    mps = list(st.world.material_points)
    for b, (x, v) in init.items():
        j = c.ix["body"][b]
        mps[j] = eqx.tree_at(lambda q: (q.position_stack, q.velocity_stack), mps[j], (x, v))
    st = eqx.tree_at(lambda s: s.world.material_points, st, tuple(mps))
    out = []
    for f in steps:
        st = c.step(spec_mod.with_dt(st, dt0 * f))
        out.append({b: st.world.material_points[c.ix["body"][b]] for b in bodies})
    return out


def permute(trace, c, ctx, res):
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    dt0 = spec_mod.safe_dt(spec)
    alive = [i for i, b in enumerate(spec["bodies"]) if not b.get("rigid")]
    rs = np.random.RandomState(trace["init"] & 0x7fffffff)
    init = {}
    for b in alive:
        a = spec_mod.body_arrays(spec, spec["bodies"][b])
        x = a["x"] + (rs.rand(*a["x"].shape) - 0.5) * 0.004
        v = a["v"] + rs.uniform(-0.2, 0.2, a["x"].shape)
        init[b] = (jnp.asarray(x, jnp.float32), jnp.asarray(v, jnp.float32))
    base = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    want = run_from(base, spec, init, trace["steps"], dt0, alive)
    got = run_from(c, spec, init, trace["steps"], dt0, alive)
    res.count("steps", 2 * len(trace["steps"]))
    res.sim_time += 2 * dt0 * sum(trace["steps"])
    compare(res, spec, want, got, {b: b for b in alive}, "the plain registration order", dt0)
    if len(spec["grids"]) > 1:
        for g in range(len(spec["grids"])):
            sp, keep = alone(spec, g)
            mine = [b for b in keep if b in alive]
            if not mine:
                continue
            solo = ctx["cache"].get(sp, lambda: simrun.Compiled(sp))
            ref = run_from(solo, sp, {keep.index(b): init[b] for b in mine}, trace["steps"], dt0, [keep.index(b) for b in mine])
            compare(res, spec, ref, got, {b: keep.index(b) for b in mine}, f"grid {g} simulated alone", dt0)
            res.count("solo-comparisons")
    for s in got:
        for b in alive:
            res.note(b, np.asarray(s[b].position_stack).round(4).tobytes())


def compare(res, spec, want, got, pairs, what, dt0):
    import numpy as np
    f64 = lambda x: np.asarray(x, np.float64)
    for n, (ws, gs) in enumerate(zip(want, got)):
        for b, j in pairs.items():
            w, z = ws[j], gs[b]
            law = spec["bodies"][b]["law"]
            c0 = spec_mod.wave_speed(law, spec["bodies"][b]["rho"])
            h = spec["grids"][spec["bodies"][b]["g"]]["h"]
            vmax = float(np.abs(f64(w.velocity_stack)).max()) + 1.0
            grow = 4.0 ** n
            smax = float(np.abs(f64(w.stress_stack)).max())
            tols = {"position_stack": 3e-6 * grow, "velocity_stack": 2e-5 * (vmax + c0) * grow, "volume_stack": 2e-5 * grow * float(np.abs(f64(w.volume_stack)).max()),
                    "L_stack": 2e-5 * (vmax + c0) / h * grow * 4, "F_stack": 2e-5 * grow, "mass_stack": 0.0,
                    "stress_stack": (1e-4 * smax + 1e-4 * law_stiffness(law)) * grow}
            for name, tol in tols.items():
                a, q = f64(getattr(w, name)), f64(getattr(z, name))
                if not (np.all(np.isfinite(a)) and np.all(np.abs(a) < 1e6 * (1 + law_stiffness(law)))):
                    res.count("not-finite")
                    return
                if a.shape != q.shape or not np.abs(a - q).max() <= tol:
                    d = np.abs(a - q).max() if a.shape == q.shape else float("nan")
                    raise Violation("order-dependent", f"after {n + 1} steps {name} of body {b} ({law['type']}) differs from {what} by {d:.4g} (round-off allowance {tol:.2g})")
            res.count("comparisons")


def law_stiffness(l):
    return {"le": lambda: l["E"], "nf": lambda: l["K"] * l["beta"], "mui": lambda: l["K"], "mcc": lambda: l["K_max"], "dp": lambda: 2 * l["K"]}[l["type"]]()
