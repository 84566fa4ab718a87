"""C20: stress stays admissible and follows the law over every history."""
import math
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C20", "exploration"
TECHNIQUE = "deterministic simulation: seeded loading histories and whole simulations with kicks, dt changes, resumes and rollbacks; admissibility, flow and dissipation judged against a double-precision model after every step"
LEVEL_NOTE = ("Seeded search over histories; every step is judged from the state before to the state after it in double precision, with single-precision tolerances. "
              "Increments are kept to what the explicit solvers' critical time step allows (a few 1e-4 for modified Cam-Clay).")
GROUP, CHUNK = 12, 12
QUICK, THOROUGH = 960, 24000
RULE = ("each run is one history: either a population of material points of one law led along seeded loading paths (loading, unloading, reversal, turning, rest), or a whole "
        "simulation with gravity, colliders and velocity kicks; both with dt changes, checkpoint resumes and rollbacks; non-trivial if at least 5 steps changed a stress; distinct by event-log digest")
STATE_MEASURE = "per step: the sets of (law, elastic / on the cone / at the apex / loose, loading or unloading) reached"
REAL = ["all constitutive laws (and, in whole simulations, solvers, builder, grid, forces, colliders)", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["in loading-path runs the velocity gradients come from the scheduler instead of a solver"]
ASSUMPTIONS = ["strain increments of a size the critical time step allows"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def gen_law(g):
    t = g.choice(["dp", "dp", "mcc", "mcc", "mui", "mui", "nf", "le"])
    u = g.uniform
    if t == "dp":
        mu = u(0.2, 0.8)
        return {"type": "dp", "p0": g.choice([0.0, 0.0, 100.0, 3000.0]), "K": g.choice([1e4, 1e5, 1e6]), "nu": g.choice([0.0, 0.2, 0.3, 0.4]), "mu_1": mu, "mu_2": g.choice([0.0, 0.3, 1.0]),
                "c0": g.choice([0.0, 50.0, 500.0]), "mu_1_hat": g.choice([0.0, 0.05, 0.5 * mu, mu]), "H": g.choice([0.0, 0.0, 100.0, 1e4]), "rho_0": 1000.0}
    if t == "mcc":
        kap = g.choice([0.005, 0.01, 0.02])
        return {"type": "mcc", "nu": g.choice([0.1, 0.2, 0.3]), "M": u(0.8, 1.4), "lam": kap * u(3, 6), "kap": kap, "N": u(1.5, 2.2), "p_ref": 1000.0,
                "K_min": None, "K_max": None, "rho_p": 2650.0, "p0": 10 ** u(2.5, 4.5), "ocr": g.choice([1.0, 1.2, 2.0, 5.0, 20.0])}
    if t == "mui":
        mu = u(0.2, 0.6)
        return {"type": "mui", "mu_s": mu, "mu_d": mu + u(0.0, 0.4), "I_0": u(0.1, 0.5), "d_p": 10 ** u(-3, -1.5), "K": g.choice([1e4, 1e5, 1e6]),
                "rho_p": 2500.0, "alpha": 10 ** u(-6, -1)}
    if t == "nf":
        return {"type": "nf", "K": g.choice([1e3, 1e5]), "viscosity": 10 ** u(-3, 2), "beta": g.choice([1.0, 7.0])}
    return {"type": "le", "E": 10 ** u(3, 6), "nu": g.choice([0.0, 0.2, 0.4]), "reset": g.random() < 0.5}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    rng = random.Random(seed)
    if g.random() < 0.7:
        law = gen_law(g)
        spec = {"dim": 3, "grids": [{"origin": [0.0] * 3, "end": [1.0] * 3, "h": 0.25, "padding": 2}], "sdfs": [], "forces": [],
                "bodies": [{"center": [0.5] * 3, "n": [4, 2, 2], "spacing": 0.1, "jitter": 0.0, "seed": 1, "vel": [0.0] * 3, "vgrad": 0.0,
                            "rho": 1000.0 if law["type"] != "dp" else g.choice([1000.0, 1200.0]), "g": 0, "law": law, "shape": "linear", "store_F": False}],
                "solver": {"scheme": "usl", "params": {"alpha": 0.99}}, "arrays": True}
        n = 60 if tier == "quick" else 240
        big = {"dp": 3e-3, "mcc": 0.1 * law.get("kap", 1), "mui": 2e-3, "nf": 5e-3, "le": 1e-3}[law["type"]]
        path, i = [], 0
        while i < n:
            m = rng.choice([3, 5, 10, 20])
            path.append({"n": m, "how": rng.choice(["press", "press", "release", "shear", "shear", "any", "any", "spin", "back", "rest"]),
                         "mag": big * rng.choice([0.02, 0.1, 0.3, 1.0]), "seed": rng.randrange(1 << 30)})
            i += m
        ev = simrun.gen_history(rng, n, fs=(1.0, 0.7, 0.5, 0.1))
        return {"mode": "path", "spec": spec, "path": path, "events": ev}
    spec = spec_mod.gen_spec(g, laws=["dp", "dp", "mcc", "mcc", "mui", "nf", "le"], max_bodies=2, one_particle=False, rigid=False)
    for b in spec["bodies"]:
        if b["law"]["type"] == "mcc" and g.random() < 0.5:
            b["law"]["ocr"] = 10.0
    ev = simrun.gen_history(rng, 30 if tier == "quick" else 120, fs=(1.0, 0.7, 0.3, 0.1))
    for _ in range(rng.randint(0, 4)):
        ev.insert(rng.randrange(len(ev) + 1), {"op": "call", "kick": rng.randrange(1 << 30), "amp": rng.choice([0.2, 0.6, 1.0])})
    return {"mode": "world", "spec": spec, "path": [], "perturb": rng.randrange(1 << 30), "events": ev}


def sample(trace):
    return {"mode": trace["mode"], "setup": spec_mod.describe(trace["spec"]), "path": trace["path"][:6], "events": trace["events"][:12]}


def shrink(trace):
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def gradients(path, n):
    """Velocity gradients of every point (compression positive) for every step of the path, scaled to a unit time step."""
    import numpy as np
    out, last = [], np.zeros((n, 3, 3))
    for p in path:
        r = np.random.RandomState(p["seed"])
        sym = lambda a: a + np.swapaxes(a, 1, 2)
        A = r.randn(n, 3, 3)
        if p["how"] == "press":
            L = np.eye(3) * r.uniform(0.2, 1, (n, 1, 1)) + 0.2 * sym(A)
        elif p["how"] == "release":
            L = -np.eye(3) * r.uniform(0.2, 1, (n, 1, 1)) + 0.2 * sym(A)
        elif p["how"] == "shear":
            L = sym(A)
            L -= np.trace(L, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        elif p["how"] == "any":
            L = A
        elif p["how"] == "spin":
            L = A - np.swapaxes(A, 1, 2)
        elif p["how"] == "back":
            L = -last
        else:
            L = np.zeros((n, 3, 3))
        nrm = np.linalg.norm(L, axis=(1, 2), keepdims=True)
        L = L / np.where(nrm > 0, nrm, 1)
        last = L
        out += [L * p["mag"]] * p["n"]
    return np.asarray(out)


class Driven:
    """Leads the points of one body along a path: kinematics as the solvers do them, then the law."""

    def __init__(self, spec):
        import equinox as eqx
        import jax.numpy as jnp
        self.spec = spec
        self.solver, self.state0, _ = spec_mod.build(spec, dt=0.01)
        law = self.solver.constitutive_laws[0]

        def f(s, D):
            m = s.world.material_points[0]
            L = D / 0.01
            F = (jnp.eye(3) - L * s.dt) @ m.F_stack
            m = eqx.tree_at(lambda q: (q.L_stack, q.F_stack, q.volume_stack), m, (L, F, jnp.linalg.det(F) * m.volume0_stack))
            m, ls = law.update(m, s.mechanics.constitutive_laws[0], s.dt)
            return eqx.tree_at(lambda q: (q.world.material_points, q.mechanics.constitutive_laws, q.time, q.step), s,
                               ((m,), (ls,), s.time + s.dt, s.step + 1))
        self.f = eqx.filter_jit(f)

    def step(self, s, solver=None):
        D = self.path[min(int(s.step), len(self.path) - 1)]
        return self.f(simrun.traced(s), D)


def execute(trace, ctx, res):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    world = trace["mode"] == "world"
    c = ctx["cache"].get([trace["mode"], spec], lambda: simrun.Compiled(spec) if world else Driven(spec))
    dt0 = spec_mod.safe_dt(spec) if world else 0.01
    if world:
        init = simrun.perturb(c.state0, trace["perturb"], spec["dim"])
    else:
        init = c.state0
        c.path = jnp.asarray(gradients(trace["path"], 16), jnp.float32)
    laws = [(i, b["law"]) for i, b in enumerate(spec["bodies"])]
    active = [0]

    def on_step(n, prev, new, led):
        if led is None:
            return None
        led = dict(led)
        for i, l in laws:
            a, b = prev.world.material_points[i], new.world.material_points[i]
            res.note(np.asarray(b.stress_stack).tobytes())
            if world:
                L = np.asarray(b.L_stack, np.float64)
                rho = np.asarray(b.volume_stack, np.float64)
                # the solvers' own range: beyond it an explicit step is not a solution of anything
                if not np.all(np.isfinite(L)) or np.abs(L).max() * float(prev.dt) > (0.1 * l["kap"] if l["type"] == "mcc" else 0.02) or rho.min() <= 0:
                    res.count("left-range")
                    return None
            led[i] = judge(l, a, b, prev.mechanics.constitutive_laws[i], new.mechanics.constitutive_laws[i], float(prev.dt), led.get(i), res,
                           f"event {n}: step {int(new.step)}: body {i} ({l['type']})")
            if np.any(np.asarray(a.stress_stack) != np.asarray(b.stress_stack)):
                active[0] += 1
        return led

    for e in trace["events"]:
        if e["op"] == "call":
            def kick(state, ledger, e=e):
                res.count("fault:kick")
                return simrun.perturb(state, e["kick"], spec["dim"], vamp=e["amp"], xamp=0.0), ledger
            e["_f"] = kick
    hist = simrun.History(c, res, simrun.run_dir("c20"))
    try:
        hist.run(init, {}, trace["events"], dt0, on_step)
    finally:
        hist.close()
        for e in trace["events"]:
            e.pop("_f", None)
    res.nontrivial = active[0] >= 5


def judge(l, a, b, la, lb, dt, led, res, where):
    """One update of one population, from state a to state b, in double precision."""
    import numpy as np
    f64 = lambda x: np.asarray(x, np.float64)
    I = np.eye(3)
    tr = lambda x: np.trace(x, axis1=1, axis2=2)
    dev = lambda x: x - tr(x)[:, None, None] / 3 * I
    nrm = lambda x: np.sqrt((x * x).sum((1, 2)))
    S0, S = f64(a.stress_stack), f64(b.stress_stack)
    L = f64(b.L_stack)
    D = (L + np.swapaxes(L, 1, 2)) / 2
    de = D * dt
    still = np.abs(L - np.swapaxes(L, 1, 2)).max((1, 2)) == 0      # no spin: nothing turns
    rho = f64(b.mass_stack) / f64(b.volume_stack)
    p, s = tr(S) / 3, dev(S)
    t = l["type"]

    def bad(kind, mask, text):
        if np.any(mask):
            j = int(np.argmax(mask))
            raise Violation(kind, f"{where} particle {j}: {text(j)}")

    bad("not-finite", ~np.isfinite(S).all((1, 2)), lambda j: "the stress is not finite")
    size = nrm(L) * dt
    if t == "dp":
        size = size + nrm(f64(la.eps_e_stack))
    if t == "mui":      # the regularised viscosity is large at rest
        size = nrm(L) * 2 * l["mu_d"] * l["K"] * np.abs(rho / f64(lb.density_ref_stack) - 1) / np.maximum(l["alpha"], nrm(dev(D))) * 0.1
    E = {"le": 50 * l.get("E", 0), "nf": 0, "mui": 1, "dp": l.get("K")}.get(t, l.get("K_max") or 2 * np.abs(S0).max() / (l.get("kap") or 1))
    bad("stress-asymmetric", np.abs(S - np.swapaxes(S, 1, 2)).max((1, 2)) > 1e-4 * (nrm(S) + nrm(S0)) + 1e-5 * E * size + 1e-8 + 3e-8 * max(l.get('K', 0), l.get('E', 0)) + 1e-5 * l.get('viscosity', 0) * nrm(L), lambda j: "the stress is not symmetric")

    if t == "le":
        lam = l["E"] * l["nu"] / ((1 + l["nu"]) * (1 - 2 * l["nu"]))
        G = l["E"] / (2 * (1 + l["nu"]))
        want = S0 + lam * tr(de)[:, None, None] * I + 2 * G * de
        e = nrm(S - want)
        bad("elastic", e > 1e-5 * (nrm(S0) + nrm(want)) + 1e-4 * l["E"] * nrm(de) + 1e-6 * l["E"] * nrm(L) * dt + 1e-9, lambda j: f"the stress is {S[j].tolist()} instead of {want[j].tolist()}")
        return None

    if t == "nf":
        rr = np.maximum(rho / f64(lb.density_ref_stack), 1e-6)
        pw = np.maximum(l["K"] * (rr ** l["beta"] - 1), 0)
        sw = 2 * l["viscosity"] * dev(D)
        tol = 1e-5 * l["K"] * l["beta"] + 1e-4 * pw
        bad("fluid-friction", nrm(s - sw) > 1e-4 * nrm(sw) + 1e-6 * np.abs(p) + 1e-9 + 2e-6 * l["viscosity"] * nrm(L), lambda j: f"the viscous stress is {s[j].tolist()} instead of {sw[j].tolist()}")
        flipped = (np.abs(p + pw) <= tol) & (p < 0)
        if np.any(flipped):
            if "C20-nf-sign" not in res.known:
                res.known.append("C20-nf-sign")
            p = np.where(flipped, -p, p)
        bad("fluid-pressure", np.abs(p - pw) > tol, lambda j: f"the pressure is {p[j]:.6g} instead of {pw[j]:.6g}")
        return None

    if t == "mui":
        r = rho / f64(lb.density_ref_stack)
        pw = l["K"] * (r - 1)
        edge = np.abs(r - 1) < 2e-6
        loose = r < 1
        bad("tension", (loose & ~edge) & (nrm(S) > 0), lambda j: f"loose material (density ratio {r[j]:.6f}) carries stress {S[j].tolist()}")
        ok = ~loose & ~edge
        bad("pressure", ok & (np.abs(p - pw) > 1e-4 * pw + 3e-6 * l["K"]), lambda j: f"the pressure is {p[j]:.6g} instead of {pw[j]:.6g}")
        bad("tension", ok & (p < 0), lambda j: f"cohesionless material carries tension {p[j]:.6g}")
        dd = dev(D)
        gam = np.sqrt(2 * (dd * dd).sum((1, 2)))
        # friction mu(I) p, regularised at low rates
        with np.errstate(all="ignore"):
            P = np.maximum(p, 0)
            In = gam * l["d_p"] / np.sqrt(P / l["rho_p"])
            mu = l["mu_s"] * gam / np.sqrt(gam ** 2 + l["alpha"] ** 2) + np.where(gam > 0, (l["mu_d"] - l["mu_s"]) / (l["I_0"] / In + 1), 0)
        q = nrm(s) / math.sqrt(2)
        sig = ok & (P > 1e-3 * l["K"] * 1e-2) & (gam > 1e-6)
        bad("friction", sig & (np.abs(q - mu * P) > 2e-3 * mu * P + 1e-6 * P), lambda j: f"shear stress {q[j]:.6g} at pressure {P[j]:.6g} and shear rate {gam[j]:.4g}: friction {q[j] / P[j]:.5f} instead of mu(I) = {mu[j]:.5f}")
        c = (s * dd).sum((1, 2))
        bad("friction-direction", sig & (c < 0.999 * nrm(s) * nrm(dd)), lambda j: "the shear stress is not along the shear rate")
        for m, name in ((loose, "loose"), (sig & (q < 0.5 * l["mu_s"] * P), "creep"), (sig & (q > l["mu_s"] * P), "flow")):
            if np.any(m):
                res.state(t, name)
        return None

    if t == "dp":
        K = l["K"]
        G = 3 * K * (1 - 2 * l["nu"]) / (2 * (1 + l["nu"]))
        m1, m2, mh = l["mu_1"], l["mu_2"], l["mu_1_hat"]
        e0, e1 = f64(la.eps_e_stack), f64(lb.eps_e_stack)
        a0, a1 = f64(la.eps_p_acc_stack), f64(lb.eps_p_acc_stack)
        p0 = f64(lb.p_0_stack)
        q = nrm(s) / math.sqrt(2)
        c1 = l["c0"] + l["H"] * a1
        tol = 1e-5 * K * (nrm(e0) + nrm(e1) + nrm(de)) + 3e-5 * (np.abs(p) + q + l["c0"]) + 1e-5
        edge = np.abs(rho / l["rho_0"] - 1) < 3e-6
        if led is None:     # the state the history starts from
            w0 = 2 * G * dev(e0) + (K * tr(e0) + p0)[:, None, None] * I
            bad("elastic-strain", nrm(S0 - w0) > 1e-5 * nrm(S0) + 1e-5, lambda j: f"it starts with the stress {S0[j].tolist()}, its elastic strain says {w0[j].tolist()}")
        loose = (rho < l["rho_0"]) & ~edge
        bad("tension", loose & (nrm(S) > 0), lambda j: f"loose material (density {rho[j]:.6g}) carries stress {S[j].tolist()}")
        on = (rho > l["rho_0"]) & ~edge
        f = q - m1 * p - m2 * c1
        bad("yield", on & (f > tol), lambda j: f"the stress is outside the cone: sqrt(J2) {q[j]:.6g} > mu_1 p + mu_2 c = {m1 * p[j] + m2 * c1[j]:.6g}")
        bad("hardening", a1 < a0 - 1e-6 * np.abs(a0) - 1e-9 - 1e-6 * (nrm(e0) + nrm(de)), lambda j: f"the accumulated plastic strain fell from {a0[j]:.6g} to {a1[j]:.6g}")
        want = 2 * G * dev(e1) + (K * tr(e1) + p0)[:, None, None] * I
        bad("elastic-strain", on & (nrm(S - want) > 3 * tol), lambda j: f"the stress is {S[j].tolist()}, its elastic strain says {want[j].tolist()}")
        et = e0 + de
        pt = K * tr(et) + p0
        qt = nrm(2 * G * dev(et)) / math.sqrt(2)
        ft = qt - m1 * pt - m2 * (l["c0"] + l["H"] * a0)
        k = on & still
        el, pl = k & (ft < -tol), k & (ft > tol)
        bad("elastic", el & ((nrm(e1 - et) > 3e-6 * (nrm(et) + nrm(de)) + 1e-9) | (np.abs(a1 - a0) > 1e-6 * np.abs(a0))),
            lambda j: f"inside the cone the elastic strain went from {e0[j].tolist()} to {e1[j].tolist()} by an increment {de[j].tolist()}")
        bad("not-on-yield", pl & (f < -tol - 2e-4 * qt), lambda j: f"yielding material was left inside the cone: f = {f[j]:.6g}")
        dp_ = et - e1                # plastic strain increment, compression positive
        work = (S * dp_).sum((1, 2))
        bad("dissipation", (pl | el) & (work < -tol * nrm(dp_) - 1e-6 * nrm(S) * (nrm(et) + nrm(de)) - 1e-12), lambda j: f"plastic flow gave back work: {work[j]:.6g}")
        bad("flow-direction", pl & ((s * dev(dp_)).sum((1, 2)) < 0.99 * nrm(s) * nrm(dev(dp_)) - tol * nrm(et) * 1e-1), lambda j: "the plastic shear strain is not along the shear stress")
        # dilatancy: what the flow rule says about volume on the cone
        g = nrm(dev(dp_)) * math.sqrt(2)
        cone = pl & (q > 0.02 * (np.abs(p) + q) + 20 * tol)
        bad("dilatancy", cone & (np.abs(tr(dp_) + mh * g) > 0.02 * g + 3e-6 * nrm(et) + tol / K), lambda j: f"plastic volume change {tr(dp_)[j]:.6g} for plastic shear {g[j]:.6g} with dilatancy {mh}")
        bad("hardening", cone & (np.abs(a1 - a0 - m2 * g) > 0.02 * m2 * g + 1e-6 * (np.abs(a1) + nrm(et))), lambda j: f"hardening by {a1[j] - a0[j]:.6g} for plastic shear {g[j]:.6g}")
        for m, name in ((loose, "loose"), (el, "elastic"), (cone, "cone"), (pl & ~cone, "apex")):
            if np.any(m):
                res.state(t, name, l["H"] > 0, m2 > 0, mh > 0)
        return True

    # modified Cam-Clay
    kap, M, cp, N = l["kap"], l["M"], l["lam"] - l["kap"], l["N"]
    c0, c1 = f64(la.p_c_stack), f64(lb.p_c_stack)
    v = l.get("rho_p", 2650.0) / rho
    edge = np.abs(v / (N * 0.999999) - 1) < 3e-6
    loose = (v > N * 0.999999) & ~edge
    on = ~loose & ~edge
    bad("tension", loose & (nrm(S) > 0), lambda j: f"loose material (specific volume {v[j]:.6g}) carries stress {S[j].tolist()}")
    bad("tension", on & (p < -1e-4 * nrm(S0) - 1e-3), lambda j: f"cohesionless material carries tension: pressure {p[j]:.6g} after {tr(S0)[j] / 3:.6g}")
    bad("hardening", ~(c1 > 0), lambda j: f"preconsolidation pressure {c1[j]:.6g}")
    q = nrm(s) * math.sqrt(1.5)
    f = (q / M) ** 2 + p * (p - c1)
    bad("yield", on & (f > 5e-3 * c1 * c1 + 1), lambda j: f"outside the yield surface: f / p_c^2 = {f[j] / c1[j] ** 2:.5f} (p {p[j]:.6g}, q {q[j]:.6g}, p_c {c1[j]:.6g})")
    P0 = tr(S0) / 3
    ev = tr(de)
    live = on & (P0 > 30) & (p > 30)            # away from the low-pressure clamp
    with np.errstate(all="ignore"):
        pt = P0 * np.exp(ev / kap)
        Kt = np.maximum(pt, 1.0) / kap
        if l.get("K_min") is not None:
            Kt = np.clip(Kt, l["K_min"], l["K_max"])
        G = 1.5 * (1 - 2 * l["nu"]) / (1 + l["nu"]) * Kt
        st = dev(S0) + 2 * G[:, None, None] * dev(de)
        qt = nrm(st) * math.sqrt(1.5)
        ft = (qt / M) ** 2 + pt * (pt - c0)
        k = live & still
        small = 1e-4 * c0 * c0
        el, pl = k & (ft < -small), k & (ft > small)
        want = st + pt[:, None, None] * I
        bad("elastic", el & ((nrm(S - want) > 1e-4 * nrm(want) + 1e-3) | (np.abs(c1 / c0 - 1) > 1e-6)),
            lambda j: f"inside the yield surface the stress went from {S0[j].tolist()} to {S[j].tolist()} instead of {want[j].tolist()} (p_c {c0[j]:.6g} to {c1[j]:.6g})")
        bad("not-on-yield", pl & (f < -5e-3 * c1 * c1), lambda j: f"yielding material was left inside the yield surface: f / p_c^2 = {f[j] / c1[j] ** 2:.5f}")
        evp = ev - kap * np.log(p / P0)
        hw = cp * np.log(c1 / c0)
        bad("hardening", pl & (np.abs(evp - hw) > 0.03 * np.abs(evp) + 2e-3 * kap * (1 + np.abs(ev) / kap)), lambda j: f"plastic volume change {evp[j]:.6g}, the preconsolidation pressure says {hw[j]:.6g}")
        # associated flow: plastic shear and volume changes in the proportion of the normal
        pm = evp / ((2 * p - c1) * M * M)
        Gn = 1.5 * (1 - 2 * l["nu"]) / (1 + l["nu"]) * (np.clip(p / kap, l["K_min"], l["K_max"]) if l.get("K_min") is not None else p / kap)
        lo, hi = (1 + 6 * np.minimum(G, Gn) * pm) * nrm(s), (1 + 6 * np.maximum(G, Gn) * pm) * nrm(s)
        tolf = 0.03 * (hi - nrm(s)) + 0.01 * nrm(st) + 6e-3 * kap * 6 * Gn / np.abs((2 * p - c1) * M * M) * nrm(s)
        judge_ = pl & (np.abs(2 * p - c1) > 0.2 * c1) & (pm > 0)
        bad("flow-direction", judge_ & ((nrm(st) < lo - tolf) | (nrm(st) > hi + tolf)), lambda j: f"the shear stress was reduced from {nrm(st)[j]:.6g} to {nrm(s)[j]:.6g} for a plastic volume change {evp[j]:.6g}; the normal to the yield surface asks for a reduction from {lo[j]:.6g}")
        bad("flow-direction", pl & ((s * st).sum((1, 2)) < 0.999 * nrm(s) * nrm(st) - 1e-3 * c0 * nrm(st)), lambda j: "the stress was not returned towards the axis")
    for m, name in ((loose, "loose"), (el, "elastic"), (pl & (p > c1 / 2), "wet"), (pl & (p < c1 / 2), "dry"), (on & (p <= 30), "low")):
        if np.any(m):
            res.state(t, name, l["ocr"])
    return None
