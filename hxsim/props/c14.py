"""C14: every step moves the material by the momentum balance of its grid, as the chosen scheme documents it."""
import itertools
import math
import random

from . import c09
from .. import shapes, simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C14", "exploration"
TECHNIQUE = "deterministic simulation: seeded step/dt/gravity/damping/resume/rollback histories, every step refined against a small double-precision reference of the scheme"
LEVEL_NOTE = ("Seeded search over set-ups and histories; each step's velocities, positions, velocity gradients and volumes are compared with a dense double-precision reference of the "
              "transfer (kernels, gather, forces, momentum balance, collider contact, blend), within an error bound propagated from single-precision round-off through the light nodes. "
              "Steps with a particle on an edge of the linear kernel's support are not judged (its gradient jumps there); at a kink of a collider either side is accepted.")
GROUP, CHUNK = 5, 10
QUICK, THOROUGH = 640, 16000
RULE = ("each run is one seeded set-up (half of them with one or two static or moving colliders of any shape) and one history of steps with dt, gravity and damping changes, checkpoint resumes and rollbacks; "
        "non-trivial if at least 5 steps were judged; distinct by event-log digest")
STATE_MEASURE = "hash of (body, mean velocity rounded to 3 digits) after every step"
REAL = ["builder, solvers, gravity, damping, colliders, signed distance objects, laws, shape functions", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt and the force parameters are the only inputs of a step, and the scheduler sets them"]
ASSUMPTIONS = ["material at least two cells from the grid edge and below the CFL limit (a run ends when it leaves that range)",
               "the classic (non-MLS) APIC update is judged with the quadratic and cubic kernels only, the ones its constants are given for"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def gen_solid(g, dim, h, body, ngrids, only=None):
    """A collider of any shape that overlaps or nearly touches the body."""
    s = c09.gen_object(g, dim)
    if only is None and g.random() < 0.3:
        s = {"type": "domain"}
    while only not in (None, s["type"]):
        s = c09.gen_object(g, dim)
    if s["type"] == "gridsdf":
        s["thickness"], s["scale"] = g.choice([1e-7, 0.02, 0.08]), g.choice([1.0, 0.6, 1.7])
    s["collider"] = g.random() < 0.85
    s["friction"] = g.choice([None, 0.0, 0.3, 0.8])
    if s["type"] == "domain":
        s["origin"] = [c - g.uniform(0.1, 0.4) for c in body["center"]]
        s["end"] = [c + g.uniform(0.1, 0.4) for c in body["center"]]
        s["friction_walls"] = g.choice([0.0] + 3 * [[round(g.uniform(0, 0.9), 2) for _ in range(2 * dim)]])
    else:
        r = {"plane": 0.05, "star": 0.9}.get(s["type"], 0.35)
        s["pos"] = [c + g.uniform(-r, r) for c in body["center"]]
        if g.random() < 0.2:        # on a node, like most hand-written set-ups
            s["pos"] = [round(x / h) * h for x in s["pos"]]
        if s.get("vel") is not None:
            s["vel"] = [g.uniform(-0.6, 0.6) for _ in range(dim)]
        if s.get("angvel") is not None:
            s["angvel"] = g.uniform(-3, 3) if dim == 2 else [g.uniform(-2, 2) for _ in range(3)]
    if only == "composite":     # turned, its parts far from alike in every direction, the body at its surface
        s["parts"] = [{"type": "box", "size": [g.uniform(0.4, 0.9)] + [g.uniform(0.1, 0.3) for _ in range(dim - 1)]}, {"type": "sphere", "radius": g.uniform(0.15, 0.25)}]
        u = [g.gauss(0, 1) for _ in range(dim)]
        s["pos"] = [c + 0.3 * x / math.hypot(*u) for c, x in zip(body["center"], u)]
        a = g.uniform(0.6, 2.5)
        s["rot"] = a if dim == 2 else [math.cos(a / 2), 0.6 * math.sin(a / 2), 0.0, 0.8 * math.sin(a / 2)]
        s["collider"], s["friction"] = True, g.choice([None, 0.8])
        s["vel"] = [-0.5 * x / math.hypot(*u) for x in u]
    if ngrids > 1 and g.random() < 0.4:
        s["grids"] = [g.randrange(ngrids)]
    return s


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    kind = {0: "light", 5: "parts"}.get(k // GROUP % 10)
    spec = spec_mod.gen_spec(g, sdfs=False, **({"laws": ["le", "nf"], "schemes": ["usl"] if k // GROUP % 20 else None} if kind == "light" else {}))
    dim = spec["dim"]
    h = spec["grids"][0]["h"]
    for gr in spec["grids"]:
        gr["origin"] = [-0.5 - h * g.choice([0, 1])] * dim if dim == 2 else [-0.5] * dim
        gr["end"] = [1.5] * dim if dim == 2 else [1.5] * dim
        gr.update(spec_mod.uneven(g, gr, 3 if dim == 2 else 1))
    p = spec["solver"]["params"]
    if spec["solver"]["scheme"] != "usl":
        if g.random() < 0.25:
            p["alpha"] = 0.0        # pure affine transfer: angular momentum is kept exactly
        if p["use_dynamic_alpha"] and g.random() < 0.5:
            p["alpha_support_min"] = g.choice([0.5, 1.3])
            p["alpha_support_max"] = g.choice([1.8, 3.0])
        if not p["use_mls_update"]:
            for b in spec["bodies"]:
                if b["shape"] == "linear":
                    b["shape"] = g.choice(["quadratic", "cubic"])
    for b in spec["bodies"]:
        if not b.get("rigid") and b["law"]["type"] in ("le", "nf") and g.random() < 0.5:
            s = [[g.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
            mag = 0.02 * (b["law"].get("E") or b["law"].get("K"))
            b["stress0"] = [[mag * (s[i][j] + s[j][i]) / 2 for j in range(3)] for i in range(3)]
    soft = [j for j, b in enumerate(spec["bodies"]) if not b.get("rigid")]
    if all(spec["bodies"][j]["law"]["type"] in ("le", "nf") for j in soft) and (kind == "light" or g.random() < 0.15):
        f = 10.0 ** -(g.uniform(6.5, 9) if p.get("cfl_limit") is None and spec["solver"]["scheme"] == "usl" else g.uniform(4.5, 7))     # light material
        for j in soft:
            b = spec["bodies"][j]
            b["rho"] *= f
            for q in ("E", "K", "viscosity"):
                if q in b["law"]:
                    b["law"][q] *= f
            if "stress0" in b:
                b["stress0"] = [[x * f for x in r] for r in b["stress0"]]
    if kind == "parts" or g.random() < 0.65:
        for _ in range(g.choice([1, 1, 2])):
            spec["sdfs"].append(gen_solid(g, dim, h, spec["bodies"][g.choice(soft)], len(spec["grids"]), "composite" if kind == "parts" else None))
    spec["forces"] = []
    for _ in range(g.choice([0, 1, 1, 2])):
        f = {"type": "gravity", "g": [g.uniform(-10, 10) for _ in range(dim)], "on_grid": g.random() < 0.5}
        if g.random() < 0.4:
            f["grids"] = sorted(g.sample(range(len(spec["grids"])), g.randint(1, len(spec["grids"]))))
            f["bodies"] = sorted(g.sample(soft, g.randint(1, len(soft))))
        spec["forces"].append(f)
    if g.random() < 0.35:
        spec["forces"].insert(g.randint(0, len(spec["forces"])), {"type": "damping", "alpha": g.choice([0.02, 0.2, 0.7]), "on_grid": g.random() < 0.6})
    rng = random.Random(seed)
    ev = simrun.gen_history(rng, 24 if tier == "quick" else 100)
    if spec["forces"] and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(spec["forces"]))
            val = rng.uniform(0, 0.8) if spec["forces"][i]["type"] == "damping" else [rng.uniform(-20, 20) for _ in range(dim)]
            ev.insert(rng.randrange(len(ev)), {"op": "call", "i": i, "val": val})
    return {"spec": spec, "init": rng.randrange(1 << 30), "vamp": rng.choice([0.1, 0.5]), "grad": rng.choice([0.0, 1.0, 3.0]), "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    if not any(e["op"] == "call" for e in trace["events"]):
        for i in range(len(sp["forces"])):
            yield dict(trace, spec=dict(sp, forces=sp["forces"][:i] + sp["forces"][i + 1:]))
    if len(sp["bodies"]) > 1 and not any(f.get("bodies") for f in sp["forces"]):
        for i in range(len(sp["bodies"])):
            if any(not b.get("rigid") for j, b in enumerate(sp["bodies"]) if j != i):
                yield dict(trace, spec=dict(sp, bodies=sp["bodies"][:i] + sp["bodies"][i + 1:]))
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def spline(np, kernel, d):
    """Value and slope (per cell) of the one-dimensional kernel at d cells from the node."""
    a, s = np.abs(d), np.sign(d)
    if kernel == "linear":
        return np.where(a < 1, 1 - a, 0.0), np.where(a < 1, -s, 0.0)
    if kernel == "quadratic":
        return (np.where(a < 0.5, 0.75 - a * a, np.where(a < 1.5, 0.5 * (1.5 - a) ** 2, 0.0)),
                np.where(a < 0.5, -2 * d, np.where(a < 1.5, -s * (1.5 - a), 0.0)))
    return (np.where(a < 1, 2 / 3 - a * a + a ** 3 / 2, np.where(a < 2, (2 - a) ** 3 / 6, 0.0)),
            np.where(a < 1, -2 * d + 1.5 * d * a, np.where(a < 2, -s * (2 - a) ** 2 / 2, 0.0)))


class Weights:
    """Kernel weights and gradients of every particle-node pair, with bounds on their single-precision error."""

    def __init__(self, np, x, kernel, origin, h, size):
        dim = x.shape[1]
        u = (x - origin) / h
        reach = {"linear": 1, "quadratic": 2, "cubic": 2}[kernel]
        base = np.floor(u).astype(int)
        offs = np.array(list(itertools.product(range(-reach, reach + 2), repeat=dim)))
        node = base[:, None, :] + offs[None]                     # particles x window x dim
        d = u[:, None, :] - node
        v, g = spline(np, kernel, d)
        eu = 2.0 ** -22 * (np.abs(u).max() + 2 + np.abs(origin).max() / h)      # error of a position in cells
        near = np.abs(d) < {"linear": 1.0, "quadratic": 1.5, "cubic": 2.0}[kernel] + eu
        a = np.abs(d)
        bend = {"linear": 0.0 * a, "quadratic": np.where(a < 0.5 + eu, 2.0, 1.0), "cubic": np.where(a < 1, 2.0, np.maximum(2 - a, 0) + eu)}[kernel] * near
        tiny = 1e-7 * (a < 1 + eu) + 1e-6 * v        # the outer pieces keep their relative precision, down to the edge
        ev = eu * np.abs(g) + bend * eu * eu + tiny + (1e-7 * near if kernel == "linear" else 0.0)
        eg = bend * eu + 1e-6 * (a < 1 + eu) + 1e-6 * np.abs(g)
        self.w = v.prod(-1)
        self.grad = np.zeros(self.w.shape + (3,))
        self.egrad = np.zeros(self.w.shape + (3,))
        self.ew = np.zeros(self.w.shape)
        V = v + ev
        for i in range(dim):
            rest = np.prod(np.delete(v, i, -1), -1)
            Rest = np.prod(np.delete(V, i, -1), -1)
            self.grad[..., i] = g[..., i] * rest / h
            self.egrad[..., i] = ((np.abs(g[..., i]) + eg[..., i]) * Rest - np.abs(g[..., i]) * rest) / h
            self.ew += ev[..., i] * Rest
        ok = np.all((node >= 0) & (node < size), -1)
        self.node = np.where(ok, np.ravel_multi_index(tuple(np.clip(node, 0, size - 1)[..., i] for i in range(dim)), tuple(size)), 0)
        for a in ("w", "ew"):
            setattr(self, a, np.where(ok, getattr(self, a), 0.0))
        for a in ("grad", "egrad"):
            setattr(self, a, np.where(ok[..., None], getattr(self, a), 0.0))
        self.d = np.zeros(self.w.shape + (3,))
        self.d[..., :dim] = -d * h            # from particle to node
        self.edge = np.abs(u - np.round(u)).min(-1) < 1e-4 if kernel == "linear" else np.zeros(len(x), bool)


def execute(trace, ctx, res):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    c = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    ix = c.ix
    params = spec["solver"]["params"]
    affine = spec["solver"]["scheme"].lower() != "usl"
    alpha = params["alpha"]
    cfl = params.get("cfl_limit", 0.5)
    cutoff = 1e-7 if affine else 1e-12
    bodies = spec["bodies"]
    soft = [b for b, bd in enumerate(bodies) if not bd.get("rigid")]
    f64 = lambda x: np.asarray(x, np.float64)
    mp = lambda s, b: s.world.material_points[ix["body"][b]]
    fstate = lambda s, i: s.mechanics.forces[ix["force"][i]]
    slot = {b: next(q.s_idx for q in c.solver.couplings if q.p_idx == ix["body"][b]) for b in soft}      # where each body's affine state is kept
    judged, hits = [0], [0]
    walls = [i for i, sd in enumerate(spec["sdfs"]) if sd.get("collider", True)]
    worst = ctx.setdefault("worst", {})
    vals0 = [np.float64(np.float32(f["alpha"])) if f["type"] == "damping" else f64(np.float32(f["g"])) for f in spec["forces"]]

    def bp(s, b):
        return f64(s.mechanics.solvers[slot[b]].Bp_stack)

    def in_range(s, dt):
        for b in soft:
            bd = bodies[b]
            m = mp(s, b)
            gr = spec["grids"][bd["g"]]
            h = gr["h"]
            x, v = f64(m.position_stack), f64(m.velocity_stack)
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(v)) and np.all(np.isfinite(f64(m.stress_stack)))):
                return None
            if np.any(x < np.asarray(gr["origin"]) + 2 * h) or np.any(x > np.asarray(gr["end"]) - 2 * h):
                return False
            if np.max(np.linalg.norm(v, axis=1)) * dt > 0.9 * h:
                return False
            r = f64(m.volume_stack) / bd["spacing"] ** dim
            if np.max(r) > 1.5 or np.min(r) < 0.6:
                return False
        return True

    def reference(s, dt, vals, solids):
        """Per body: expected velocity, position and velocity gradient, each with its error bound."""
        out = {}
        e7 = 3e-7
        for gi, gr in enumerate(spec["grids"]):
            here = [b for b in soft if bodies[b]["g"] == gi]
            if not here:
                continue
            dom = c.solver.grid_domains[ix["grid"][gi]]
            size = np.array(dom.grid_size)
            N = int(size.prod())
            origin, h = np.asarray(gr["origin"], float), gr["h"]
            M, P, F = np.zeros(N), np.zeros((N, dim)), np.zeros((N, dim))
            eM, eF, amb = np.zeros(N), np.zeros((N, dim)), np.zeros((N, dim))
            W, U = {}, {}
            for b in here:
                q = mp(s, b)
                x, v, m = f64(q.position_stack), f64(q.velocity_stack), f64(q.mass_stack)
                k = W[b] = Weights(np, x, bodies[b]["shape"], origin, h, size)
                B = bp(s, b) if affine else np.zeros((len(x), 3, 3))
                u = v[:, None, :] - np.einsum("pij,pnj->pni", B, k.d)[..., :dim]
                U[b] = u
                ext, eext = np.zeros((len(x), dim)), np.zeros((len(x), dim))
                for i, f in enumerate(spec["forces"]):
                    if f["on_grid"] or b not in f.get("bodies", soft):
                        continue
                    if f["type"] == "gravity":
                        ext = ext + m[:, None] * vals[i]
                    else:
                        ext = ext - vals[i] * np.abs(ext) * np.sign(v)
                sig, vol = f64(q.stress_stack), f64(q.volume_stack)
                fi = np.einsum("p,pij,pnj->pni", vol, sig, k.grad)[..., :dim] + k.w[..., None] * ext[:, None, :]
                efi = (np.einsum("p,pij,pnj->pni", vol, np.abs(sig), k.egrad + e7 * np.abs(k.grad))[..., :dim]
                       + (k.ew + e7 * k.w)[..., None] * np.abs(ext)[:, None, :])
                np.add.at(M, k.node, k.w * m[:, None])
                np.add.at(eM, k.node, (k.ew + e7 * k.w) * m[:, None])
                np.add.at(P, k.node, (k.w * m[:, None])[..., None] * u)
                np.add.at(F, k.node, fi)
                np.add.at(eF, k.node, efi)
            live = M > cutoff
            safe = np.where(live, M, 1.0)
            v0 = np.where(live[:, None], P / safe[:, None], 0.0)
            ev0 = np.zeros((N, dim))
            for b in here:
                k, u, m = W[b], U[b], f64(mp(s, b).mass_stack)
                big = np.abs(u) + np.abs(f64(mp(s, b).velocity_stack))[:, None, :]
                aff = np.abs(u - f64(mp(s, b).velocity_stack)[:, None, :])
                np.add.at(ev0, k.node, (k.ew * m[:, None])[..., None] * np.abs(u - v0[k.node]) + (k.w * m[:, None])[..., None] * (1e-6 * big + 1e-6 * aff))
                if affine:      # the affine part at a position that is off by its round-off
                    np.add.at(ev0, k.node, (k.w * m[:, None])[..., None] * (2e-6 * h * np.abs(bp(s, b)).sum((1, 2)))[:, None, None])
            for i, f in enumerate(spec["forces"]):
                if not f["on_grid"] or gi not in f.get("grids", range(len(spec["grids"]))):
                    continue
                if f["type"] == "gravity":
                    F = F + M[:, None] * vals[i]
                    eF = eF + (eM + e7 * M)[:, None] * np.abs(vals[i])
                else:
                    sign = np.sign(P)
                    unsure = np.abs(P) <= 2 * ev0 + 1e-6 * np.abs(P).max()
                    eF = eF * (1 + vals[i]) + np.where(unsure, 2 * vals[i] * np.abs(F), 0.0) + e7 * np.abs(F)
                    F = F - vals[i] * np.abs(F) * sign
            a = np.where(live[:, None], F / safe[:, None], 0.0)
            ev0 /= safe[:, None]
            rel = np.minimum(eM / safe, 1.0)
            ea = eF / safe[:, None] + rel[:, None] * np.abs(a) + e7 * np.abs(a)
            # nodes near the cut-off, or whose mass is mostly round-off, may or may not take part
            loose = (np.abs(M - cutoff) < 0.05 * cutoff + 2 * eM) | (rel > 0.2)
            raw = np.abs(P) / np.maximum(M, 1e-30)[:, None]
            push = np.where(loose[:, None], dt * (np.abs(F) + eF), 0.0)        # reaches a particle at most as push / its mass
            v1 = v0 + dt * a
            ev0 = np.where(loose[:, None], ev0 + 2 * raw, ev0)
            ev1 = ev0 + np.where(loose[:, None], 0.0, dt * ea + e7 * np.abs(v1))
            stretch = np.ones(N)
            if solids:
                nx = origin + h * np.stack(np.unravel_index(np.arange(N), tuple(size)), -1)
                near = np.flatnonzero(M > 0)
                for i, solid in solids:
                    sd = spec["sdfs"][i]
                    if gi not in sd.get("grids", range(len(spec["grids"]))):
                        continue
                    base = 1.0 if sd.get("friction") is None else sd["friction"]
                    v1[near], ev1[near], hit = shapes.collide(solid, nx[near], h, v1[near], ev1[near], base)
                    hits[0] += int((hit & live[near]).sum())
                    stretch[near[hit]] *= 2 + base
                # a node below the cut-off stays out, whatever a collider did to it
                ev1 = np.where(loose[:, None], ev1 + 2 * np.abs(v1), np.where(live[:, None], ev1, 0.0))
                v1 = np.where(live[:, None], v1, 0.0)
            for b in here:
                q, k = mp(s, b), W[b]
                x, v = f64(q.position_stack), f64(q.velocity_stack)
                at = lambda f: np.einsum("pn,pni->pi", k.w, f[k.node])
                err = lambda e, f: np.einsum("pn,pni->pi", k.w, e[k.node]) + np.einsum("pn,pni->pi", k.ew, np.abs(f[k.node] - v[:, None, :])) + 2e-6 * (np.abs(v) + np.einsum("pn,pni->pi", k.w, np.abs(f[k.node])))
                p0, p1, e0, e1 = at(v0), at(v1), err(ev0, v0), err(ev1, v1)
                Gk = k.grad
                eG = k.egrad + 1e-6 * np.abs(k.grad)
                if affine and not params["use_mls_update"]:
                    D = h * h * (1 / 3 if bodies[b]["shape"] == "cubic" else 1 / 4)
                    Gk = k.w[..., None] * k.d / D
                    eG = (k.ew + 1e-6 * k.w)[..., None] * np.abs(k.d) / D + (2e-6 * h * k.w[..., None] / D) * (np.arange(3) < dim)
                L = np.zeros((len(x), 3, 3))
                eL = np.zeros((len(x), 3, 3))
                L[:, :dim] = -np.einsum("pni,pnj->pij", v1[k.node], Gk)
                near = np.abs(v1[k.node] - v[:, None, :])
                eL[:, :dim] = np.einsum("pni,pnj->pij", ev1[k.node], np.abs(Gk)) + np.einsum("pni,pnj->pij", near, eG) + 2e-6 / h * (np.abs(v).max() + 1e-3)
                touched = loose[k.node] & (k.egrad.max(-1) > 0)
                # there the node's velocity is mostly round-off, and so is the slope
                wild = stretch[:, None] * dt * (np.abs(F) + eF) / np.maximum(M - 2 * eM, cutoff)[:, None]
                eL[:, :dim] += np.einsum("pn,pni,pnj->pij", touched.astype(float), wild[k.node], np.abs(k.grad) + k.egrad)
                e1 = e1 + np.einsum("pn,pni->pi", touched.astype(float), (stretch[:, None] * push)[k.node]) / f64(q.mass_stack)[:, None]
                adj = v - p0
                if affine:
                    al = alpha
                    eal = 0.0
                    if params["use_dynamic_alpha"]:
                        m = f64(q.mass_stack)
                        sup = np.einsum("pn,pn->p", k.w, M[k.node]) / (m + 1e-9)
                        lo, hi = params.get("alpha_support_min", 1.1), params.get("alpha_support_max", 1.5)
                        al = alpha * np.clip((sup - lo) / (hi - lo), 0, 1)[:, None]
                        eal = 1e-4 * alpha
                    v2 = p1 + al * adj
                    ev2 = e1 + al * e0 + eal * np.abs(adj)
                    lim = cfl * h / dt
                    sp = np.linalg.norm(v2, axis=1, keepdims=True)
                    v2 = v2 * np.minimum(1.0, lim / (sp + 1e-12))
                    ev2 = ev2 * 2 + 1e-6 * np.abs(v2)
                    Ln = L.copy()
                    if dim == 2:
                        Ln[:, 2, 2] = 0
                    J = np.linalg.det((np.eye(3) - Ln * dt) @ f64(q.F_stack)) if dim == 3 else np.linalg.det(((np.eye(3) - Ln * dt) @ f64(q.F_stack))[:, :2, :2])
                    bmin, bmax = params.get("beta_min", 0.0), params.get("beta_max", 0.5)
                    beta = np.where(J < 1, bmin, bmax)[:, None]
                    ebeta = abs(bmax - bmin) * (np.abs(J - 1) < 1e-5 + 2 * dt * eL.max((1, 2)))[:, None]
                    x2 = x + dt * (p1 + alpha * beta * adj)
                    ex2 = dt * (e1 + alpha * np.maximum(bmin, bmax) * e0 + alpha * ebeta * np.abs(adj)) + 2.0 ** -23 * (np.abs(x) + np.abs(x2))
                else:
                    v2 = (1 - alpha) * p1 + alpha * (v + p1 - p0)
                    # v - (old grid velocity) and the new grid velocity share the error of the old one
                    ev2 = e1 + alpha * e0
                    x2 = x + dt * p1
                    ex2 = dt * e1 + 2.0 ** -23 * (np.abs(x) + np.abs(x2))
                out[b] = (v2, ev2, x2, ex2, L, eL, k.edge)
            if any(W[b].edge.any() for b in here):
                for b in here:
                    out[b] = None
        return out

    def compare(n, name, step, b, got, want, tol):
        over = np.abs(got - want) - tol
        r = np.nanmax(np.abs(got - want) / np.maximum(tol, 1e-30)) if np.all(np.isfinite(got)) else np.inf
        worst[name] = max(worst.get(name, 0.0), float(r))
        if not r <= 1.0:
            i = np.unravel_index(np.argmax(np.where(np.isfinite(over), over, np.inf)), over.shape)
            raise Violation(f"wrong-{name}", f"event {n}: step {step}: body {b} ({bodies[b]['law']['type']}/{bodies[b]['shape']}): the {name} of particle {i[0]} is {got[i]:.6g}, "
                                             f"the scheme gives {want[i]:.6g} (error bound {tol[i]:.2g})")

    def moments(s):
        """Total first moment of momentum of each body with its affine part (classic APIC)."""
        out = []
        for b in soft:
            q = mp(s, b)
            x, v, m = f64(q.position_stack), f64(q.velocity_stack), f64(q.mass_stack)
            h = spec["grids"][bodies[b]["g"]]["h"]
            D = h * h * (1 / 3 if bodies[b]["shape"] == "cubic" else 1 / 4)
            T = np.einsum("p,pi,pj->ij", m, v, x) - D * np.einsum("p,pij->ij", m, bp(s, b))[:dim, :dim]
            out.append(T)
        return out

    heavy = all(bodies[b]["rho"] > 1 for b in soft)      # light nodes below the cut-off keep their momentum to themselves
    exact = heavy and not walls and affine and alpha == 0.0 and not params["use_mls_update"] and not any(f["type"] == "damping" for f in spec["forces"])

    def on_step(n, prev, new, led):
        vals, alive = led
        dt = float(prev.dt)
        if not alive:
            return (vals, False)
        ok = in_range(prev, dt)
        if not ok:
            res.count("left-range")
            return (vals, False)
        solids = []
        for i in walls:         # in the pose of this step (that the pose is right is C09)
            q = new.world.sdfs[ix["sdf"][i]]
            solids.append((i, shapes.Solid(spec["sdfs"][i], q.center_of_mass, q.rotation, q.velocity, q.angular_velocity, dim)))
        ref = reference(prev, dt, vals, solids)
        step = int(new.step)
        any_j = False
        for b in soft:
            q = mp(new, b)
            if ref[b] is None:
                res.count("edge-steps")
                continue
            v2, ev, x2, ex, L, eL, _ = ref[b]
            any_j = True
            compare(n, "velocity", step, b, f64(q.velocity_stack), v2, ev)
            compare(n, "position", step, b, f64(q.position_stack), x2, ex)
            compare(n, "velocity gradient", step, b, f64(q.L_stack), L, eL)
            F1 = (np.eye(3) - f64(q.L_stack) * dt) @ f64(mp(prev, b).F_stack)
            J = np.linalg.det(F1[:, :dim, :dim]) if dim == 2 else np.linalg.det(F1)
            vol = J * f64(q.volume0_stack)
            compare(n, "volume", step, b, f64(q.volume_stack)[:, None], vol[:, None], (1e-5 * np.abs(vol))[:, None])
            res.state(b, [round(float(z), 3) for z in f64(q.velocity_stack).mean(0)])
            res.note(np.asarray(q.velocity_stack).tobytes())
        if exact and any_j and len(set(bodies[b]["g"] for b in soft)) == 1 and in_range(new, dt):
            h = spec["grids"][bodies[soft[0]]["g"]]["h"]
            T0, T1 = sum(moments(prev)), sum(moments(new))
            want, scale = np.zeros((dim, dim)), 0.0
            for b in soft:
                q, z = mp(prev, b), mp(new, b)
                m, x, v = f64(q.mass_stack), f64(q.position_stack), f64(q.velocity_stack)
                G = np.zeros(dim)
                for i, f in enumerate(spec["forces"]):
                    if (bodies[b]["g"] in f.get("grids", range(len(spec["grids"])))) if f["on_grid"] else (b in f.get("bodies", soft)):
                        G = G + vals[i]
                want += dt * np.einsum("p,i,pj->ij", m, G, x)
                want += dt * np.einsum("p,pij->ij", f64(q.volume_stack), f64(q.stress_stack))[:dim, :dim]
                v1 = f64(z.velocity_stack)
                want += dt * np.einsum("p,pi,pj->ij", m, v1, v1)
                lever = float(np.abs(x).max() + np.abs(np.asarray(spec["grids"][bodies[b]["g"]]["origin"])).max() + 4 * h)
                B = np.abs(bp(prev, b)).sum((1, 2)) + np.abs(bp(new, b)).sum((1, 2))
                scale += 3e-6 * lever * float((m * (np.abs(v).sum(1) + np.abs(v1).sum(1) + h * B)).sum() + dt * m.sum() * np.abs(G).sum())
                scale += 1e-5 * dt * lever / h * float((f64(q.volume_stack) * np.abs(f64(q.stress_stack)).sum((1, 2))).sum())
            e = np.abs(T1 - T0 - want).max() / scale
            worst["moment"] = max(worst.get("moment", 0.0), float(e))
            res.count("moment-steps")
            if not e <= 1.0:
                raise Violation("moment", f"event {n}: step {step}: the first moment of momentum changed by {(T1 - T0).round(6).tolist()}, stress, gravity and motion account for {want.round(6).tolist()}")
        judged[0] += any_j
        return (vals, True)

    ev = []
    for e in trace["events"]:
        if e["op"] == "call":
            e = dict(e)

            def f(state, led, e=e):
                vals, alive = led
                val = jnp.asarray(e["val"], jnp.float32)
                kind = "alpha" if spec["forces"][e["i"]]["type"] == "damping" else "gravity"
                state = eqx.tree_at(lambda q: getattr(q.mechanics.forces[fidx[e["i"]]], kind), state, val)
                vals = list(vals)
                vals[e["i"]] = f64(val)
                res.count("force-changes")
                return state, (tuple(vals), alive)
            e["_f"] = f
        ev.append(e)
    own = [j for j, s in enumerate(c.state0.mechanics.forces) if hasattr(s, "gravity") or hasattr(s, "alpha")]
    fidx = dict(zip(sorted(ix["force"]), own))      # registration order is spec order here
    assert len(own) == len(spec["forces"])
    init = simrun.perturb(c.state0, trace["init"], dim, vamp=trace["vamp"], xamp=0.004)
    rs = np.random.RandomState((trace["init"] ^ 0x77) & 0x7fffffff)
    for b in soft:
        j = ix["body"][b]
        q = init.world.material_points[j]
        x = f64(q.position_stack)
        A = rs.uniform(-1, 1, (dim, dim)) * trace["grad"]
        init = eqx.tree_at(lambda s: s.world.material_points[j].velocity_stack, init, q.velocity_stack + jnp.asarray((x - x.mean(0)) @ A.T, jnp.float32))
    hist = simrun.History(c, res, simrun.run_dir("c14"))
    try:
        hist.run(init, (tuple(vals0), True), ev, spec_mod.safe_dt(spec), on_step)
    finally:
        hist.close()
    res.count("judged-steps", judged[0])
    res.count("collider-nodes", hits[0])
    res.nontrivial = judged[0] >= 5
