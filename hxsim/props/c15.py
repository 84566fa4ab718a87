"""C15: deformation, volume and stress follow the motion of the material."""
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C15", "exploration"
TECHNIQUE = "deterministic simulation: seeded step/dt/resume/rollback histories; the deformation actually made by neighbouring particles is fitted and compared after every step"
LEVEL_NOTE = ("Seeded search over set-ups and histories of turning, shearing and stretching bodies. The reference is the affine map fitted to the positions of the interior "
              "particles, so it is independent of the library's velocity gradients; tolerances are those of the discretisation (a few percent of the deformation).")
GROUP, CHUNK = 6, 6
QUICK, THOROUGH = 576, 12000
RULE = ("each run is one body (every law, scheme, kernel, 2D and 3D) (half of them start deformed) thrown with a seeded affine velocity field and taken through one history of steps with dt changes, "
        "checkpoint resumes and rollbacks; bodies of laws with memory of direction are also pre-stressed; non-trivial if the fitted deformation exceeded 3% and at least five "
        "states were judged; distinct by event-log digest")
STATE_MEASURE = "hash of the fitted deformation rounded to 2 digits after every step"
REAL = ["builder, solvers, laws, shape functions, material points", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt is the only input of a step, and the scheduler sets it"]
ASSUMPTIONS = ["the classic (non-MLS) APIC update is judged with the quadratic and cubic kernels only, the ones its constants are given for",
               "linear elasticity is a small-strain law: its stress is not expected to turn with the body"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    spec = spec_mod.gen_spec(g, dims=(2, 2, 3), max_bodies=1, sdfs=False, damping=False, rigid=False, multi_grid=False, one_particle=False)
    dim = spec["dim"]
    h = 0.1 if dim == 2 else 0.2
    spec["grids"] = [spec_mod.uneven(g, {"origin": [-0.6 - h * 0.5] * dim, "end": [1.6] * dim, "h": h, "padding": 3}, 3 if dim == 2 else 1)]
    spec["forces"] = []
    p = spec["solver"]["params"]
    if spec["solver"]["scheme"] != "usl":
        p["use_dynamic_alpha"] = False
        p["cfl_limit"] = 0.8
        p["beta_max"] = p["beta_min"] = 0.0
        spec["solver"]["scheme"] = "usl_aflip"
    b = spec["bodies"][0]
    n = 9 if dim == 2 else 6
    b.update(center=[0.5 + g.uniform(-0.1, 0.1) for _ in range(dim)], n=[n] * dim, spacing=h / 2, jitter=g.choice([0.0, 0.3]), vgrad=0.0, rho=1e6)
    if spec["solver"]["scheme"] != "usl" and not p["use_mls_update"] and b["shape"] == "linear":
        b["shape"] = "cubic"
    if b["shape"] == "linear" and dim == 3:
        b["shape"] = "quadratic"
    l = b["law"]
    if l["type"] == "mui":
        l["rho_p"] = 2e6
    if l["type"] == "mcc":
        l.update(rho_p=2.65e6, kap=0.1, lam=0.3, K_min=100.0, K_max=200.0, p0=1000.0, ocr=3.0)
    if l["type"] == "dp":
        l.update(c0=1e4, mu_2=1.0, rho_0=1.0, K=100.0)
    if l["type"] == "le":
        l["E"] = 100.0
    spring = g.random() < 0.12      # a stiff body that springs back within a few steps
    if spring:
        b["law"] = {"type": "le", "E": 1e6 * (g.uniform(0.2, 0.4) * h / 0.02) ** 2, "nu": 0.0, "rho_0": 1e6}
        b["jitter"] = 0.0
    rng = random.Random(seed)
    kind = "stretch" if spring else rng.choice(["turn", "turn", "any", "shear", "stretch"])
    A = [[rng.uniform(-1, 1) for _ in range(dim)] for _ in range(dim)]
    if kind == "turn":
        A = [[(A[i][j] - A[j][i]) / 2 for j in range(dim)] for i in range(dim)]
    elif kind == "stretch":
        A = [[(A[i][j] + A[j][i]) / 2 for j in range(dim)] for i in range(dim)]
    elif kind == "shear":
        i, j = rng.sample(range(dim), 2)
        s = rng.choice([-1, 1])
        A = [[s if (a, c) == (i, j) else 0.0 for c in range(dim)] for a in range(dim)]
    mag = max(max(abs(x) for x in r) for r in A) or 1.0
    A = [[x / mag * (0.4 if spring else 1.0) for x in r] for r in A]
    ev = simrun.gen_history(rng, 30 if tier == "quick" else 60, fs=(1.0, 0.7, 0.5, 0.3, 0.1))
    s = [rng.uniform(-1, 1) for _ in range(6)]
    F0 = None
    if rng.random() < 0.5:      # the body starts deformed (sheared, stretched and turned at unchanged volume)
        q = [[rng.uniform(-0.25, 0.25) + (i == j) for j in range(dim)] for i in range(dim)]
        d = q[0][0] * q[1][1] - q[0][1] * q[1][0] if dim == 2 else sum(
            q[0][i] * (q[1][(i + 1) % 3] * q[2][(i + 2) % 3] - q[1][(i + 2) % 3] * q[2][(i + 1) % 3]) for i in range(3))
        F0 = [[x / d ** (1 / dim) for x in r] for r in q]
    return {"spec": spec, "F0": F0, "A": A, "v": [rng.uniform(-0.3, 0.3) for _ in range(dim)], "s": s, "spring": spring, "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "A": trace["A"], "events": trace["events"][:15]}


def shrink(trace):
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def execute(trace, ctx, res):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    b = spec["bodies"][0]
    law = b["law"]["type"]
    c = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    h = spec["grids"][0]["h"]
    f64 = lambda x: np.asarray(x, np.float64)
    mp = lambda s: s.world.material_points[0]

    m0 = mp(c.state0)
    X = f64(m0.position_stack)
    xc = X.mean(0)
    A = np.asarray(trace["A"])
    V = np.asarray(trace["v"]) + (X - xc) @ A.T
    init = eqx.tree_at(lambda s: mp(s).velocity_stack, c.state0, jnp.asarray(V, jnp.float32))
    F0 = np.eye(3)
    if trace.get("F0"):
        F0[:dim, :dim] = trace["F0"]
        stack = jnp.asarray(np.tile(F0, (len(X), 1, 1)), jnp.float32)
        init = eqx.tree_at(lambda s: mp(s).F_stack, init, stack)
        if mp(init).F_store_stack is not None:
            init = eqx.tree_at(lambda s: mp(s).F_store_stack, init, stack)
    size0 = np.linalg.norm(F0, 2)
    inner = np.all(np.abs(X - xc) < (1.05 if dim == 2 else 0.55) * h, axis=1)
    assert inner.sum() > dim + 2
    Y = np.concatenate([X[inner] - xc, np.ones((inner.sum(), 1))], 1)
    spring = bool(trace["spring"])
    memory = law in ("dp", "mcc")
    if memory:      # a pre-stress with a direction, and the elastic strain it belongs to
        s = trace["s"]
        S = np.array([[s[0], s[3], s[4] * (dim == 3)], [s[3], s[1], s[5] * (dim == 3)], [s[4] * (dim == 3), s[5] * (dim == 3), s[2]]])
        S -= np.trace(S) / 3 * np.eye(3)
        S *= (300.0 if law == "mcc" else 2000.0) / np.linalg.norm(S)
        S0 = S + np.trace(f64(m0.stress_stack[0])) / 3 * np.eye(3)
        n = len(X)
        init = eqx.tree_at(lambda q: mp(q).stress_stack, init, jnp.asarray(np.tile(S0, (n, 1, 1)), jnp.float32))
        if law == "dp":
            G = float(np.asarray(c.solver.constitutive_laws[0].G))
            init = eqx.tree_at(lambda q: q.mechanics.constitutive_laws[0].eps_e_stack, init, jnp.asarray(np.tile(S / (2 * G), (n, 1, 1)), jnp.float32))
        dev0 = S
    vol0 = f64(m0.volume0_stack)
    reset = bool(getattr(c.solver.constitutive_laws[0], "requires_F_reset", False))
    judged = [0]
    most = [0.0]

    def det(F):
        return np.linalg.det(F[:, :2, :2]) if dim == 2 else np.linalg.det(F)

    def on_step(n, prev, new, led):
        q = mp(new)
        x = f64(q.position_stack)
        if led is None or not np.all(np.isfinite(x)):
            if led is not None:
                raise Violation("not-finite", f"event {n}: a position is not finite")
            return None
        F, L = f64(q.F_stack), f64(q.L_stack)
        res.note(np.asarray(q.position_stack).tobytes(), np.asarray(q.stress_stack).tobytes())
        # the affine map the interior particles have made
        sol, *_ = np.linalg.lstsq(Y, x[inner], rcond=None)
        M = sol[:dim].T
        resid = np.abs(Y @ sol - x[inner]).max()
        size = np.linalg.norm(M - np.eye(dim))
        if np.any(x < -0.5) or np.any(x > 1.5) or size > 0.8 or resid > 0.15 * size * h + 1e-4 * h:
            res.count("left-range")
            return None
        if not np.all(np.isfinite(F[inner])):
            raise Violation("not-finite", f"event {n}: a deformation gradient is not finite")
        if not np.abs(F).max() < 4 or det(F).min() < 0.1:
            res.count("left-range")
            return None
        vol = f64(q.volume_stack)
        e = np.abs(vol / (det(F) * vol0) - 1).max()
        if not e < 1e-4:
            raise Violation("volume", f"event {n}: volume and det F x initial volume differ by a factor of up to 1 +- {e:.3g}")
        d = f64(q.density_stack) * vol / f64(q.mass_stack)
        if not np.abs(d - 1).max() < 1e-4:
            raise Violation("density", f"event {n}: density x volume is not the mass")
        if dim == 2 and np.abs(L[:, 2, :]).max() > 0:
            raise Violation("plane-strain", f"event {n}: a 2D simulation has an out-of-plane velocity")
        a = f64(q.stress_stack)
        if not np.abs(a - a.transpose(0, 2, 1)).max() <= 1e-4 * np.abs(a).max() + 1e-6:
            raise Violation("stress-asymmetric", f"event {n}: the stress is not symmetric")
        judged[0] += 1
        most[0] = max(most[0], float(size))
        res.state([round(float(z), 2) for z in M.ravel()])
        peak = max(led[1], float(size))
        tol = (0.25 * peak if spring else 0.2 * size) + 1e-3
        if spring and led[0] >= 15:
            return None
        e = abs(det(F)[inner].mean() - np.linalg.det(M))
        if not e < tol * dim ** 0.5:
            raise Violation("volume-drift", f"event {n}: step {int(new.step)}: the material's volume changed by {np.linalg.det(M) - 1:+.4f}, its F says {det(F)[inner].mean() - 1:+.4f}")
        full = F if not reset else (f64(q.F_store_stack) if q.F_store_stack is not None else None)
        if full is not None:
            f = full[inner].mean(0)[:dim, :dim]
            e = np.linalg.norm(f - M @ F0[:dim, :dim])
            if not e < tol * size0:
                raise Violation("deformation", f"event {n}: step {int(new.step)}: the particles moved by {M.round(4).tolist()}, the deformation gradient "
                                               f"({'F_store_stack' if reset else 'F_stack'}) went from {F0[:dim, :dim].round(4).tolist()} to {f.round(4).tolist()}")
        if memory:
            U, w, Vt = np.linalg.svd(M)
            R = np.eye(3)
            R[:dim, :dim] = U @ Vt
            want = R @ dev0 @ R.T
            turn = np.linalg.norm(want - dev0)
            got = a[inner].mean(0)
            got -= np.trace(got) / 3 * np.eye(3)
            G = 50.0 if law == "dp" else 100.0
            e = np.linalg.norm(got - want)
            stretch = np.linalg.norm(M - U @ Vt)
            # beyond a small strain the material may yield or come loose
            if stretch > 0.08 or abs(np.linalg.det(M) - 1) > 0.02:
                return led[0] + 1, peak
            if not e < 0.3 * turn + 3 * G * stretch + 0.02 * np.linalg.norm(dev0):
                raise Violation("stress-turn", f"event {n}: step {int(new.step)}: the material turned by {np.degrees(np.arccos(np.clip((np.trace(R) - 1) / 2, -1, 1))):.1f} degrees; "
                                               f"its stress deviator is {got.round(1).tolist()} instead of about {want.round(1).tolist()}")
            if turn > 0.1 * np.linalg.norm(dev0):
                res.count("stress-turned")
        return led[0] + 1, peak

    hist = simrun.History(c, res, simrun.run_dir("c15"))
    try:
        hist.run(init, (0, 0.0), trace["events"], 0.02, on_step)
    finally:
        hist.close()
    res.count("judged-steps", judged[0])
    res.nontrivial = bool(judged[0] >= 5 and most[0] > 0.03)
