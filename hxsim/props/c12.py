"""C12: material stays outside colliders; walls only push, and friction keeps to its coefficient."""
import math
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C12", "exploration"
TECHNIQUE = "deterministic simulation: seeded step/dt/gravity/wall-motion/resume histories, depth and wall-impulse ledgers checked after every step"
LEVEL_NOTE = ("Seeded search over set-ups and histories; depth is evaluated with an independent signed distance in double precision, the wall impulse by a momentum balance "
              "with single-precision round-off. The impulse bounds are judged for one plane (or the floor of a domain) with dynamic blending off.")
GROUP, CHUNK = 10, 10
QUICK, THOROUGH = 240, 8000
REACH = {"linear": 1.0, "quadratic": 1.5, "cubic": 2.0}
RULE = ("each run is one seeded set-up (one or two bodies thrown at planes, boxes, spheres or a domain boundary, static, moving or turning) and one history of steps with dt and gravity "
        "changes, wall steering, checkpoint resumes and rollbacks; non-trivial if a particle came so close that its grid nodes touch the collider's; distinct by event-log digest")
STATE_MEASURE = "hash of (depth in tenths of a cell, number of particles in contact) after every step"
REAL = ["builder, solvers, gravity, colliders, SDF objects, laws", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt, gravity and wall velocities are the only inputs of a step, and the scheduler sets them"]
ASSUMPTIONS = ["colliders thicker than two cells, no pinching between two colliders, speeds and wall speeds below the CFL limit, dt within the stable step of the law"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    dim = g.choice([2, 2, 2, 3])
    spec = spec_mod.gen_spec(g, dims=[dim], sdfs=False, damping=False, rigid=False, multi_grid=False, max_bodies=2, laws=["le", "le", "nf", "dp", "mui"])
    h = spec["grids"][0]["h"] = 0.1 if dim == 2 else 0.2
    spec["grids"] = [{"origin": [-0.4] * dim, "end": [1.6] * dim, "h": h, "padding": 2}] if dim == 2 else [{"origin": [-0.6] * dim, "end": [1.8] * dim, "h": h, "padding": 2}]
    spec["grids"][0] = spec_mod.uneven(g, spec["grids"][0], 3 if dim == 2 else 1)
    for b in spec["bodies"]:
        b["spacing"] = h / 2
        b["vgrad"] = min(b["vgrad"], 1.0)
        b["n"] = [g.randint(2, 4) if dim == 2 else 2 for _ in range(dim)]
    if spec["solver"]["scheme"] != "usl" and g.random() < 0.6:
        spec["solver"]["params"]["use_dynamic_alpha"] = False
    spec["forces"] = [{"type": "gravity", "g": [0.0] * (dim - 1) + [-9.81], "on_grid": g.random() < 0.7}]
    t = g.choice(["plane", "plane", "plane", "domain", "domain", "sphere", "box"])
    s = {"type": t, "friction": g.choice([None, 0.0, 0.0, 0.3, 0.6]), "gap": 1e-4, "collider": True}
    if t == "plane":
        n = [g.gauss(0, 1) for _ in range(dim)]
        n = [0.0] * (dim - 1) + [1.0] if g.random() < 0.4 else n
        m = sum(x * x for x in n) ** 0.5
        s["normal"] = [x / m for x in n]
        s["pos"] = [0.5 - x * g.uniform(0.3, 0.35) * (1 if dim == 2 else 1.6) for x in s["normal"]]
    elif t == "domain":
        m = 0.0 if dim == 2 else -0.2
        s["origin"], s["end"] = [m + g.uniform(-0.08, 0.08) for _ in range(dim)], [1.0 - m + g.uniform(-0.08, 0.08) for _ in range(dim)]
        s["friction_walls"] = g.choice([0.0, 0.4])
    elif t == "sphere":
        s["radius"] = 0.25 if dim == 2 else 0.45
        s["pos"] = [0.5 + g.uniform(-0.1, 0.1) for _ in range(dim - 1)] + [-0.05 if dim == 2 else -0.35]
    else:
        s["size"] = [0.8] * (dim - 1) + [0.45] if dim == 2 else [1.2] * 2 + [0.9]
        s["pos"] = [0.5] * (dim - 1) + [-0.05 if dim == 2 else -0.4]
        if dim == 2:
            s["rot"] = g.uniform(-0.3, 0.3)
        elif g.random() < 0.6:          # a box tilted about a level axis
            a, q = g.uniform(-0.15, 0.15), g.uniform(0, 6.3)
            s["rot"] = [math.cos(a), math.sin(a) * math.cos(q), math.sin(a) * math.sin(q), 0.0]
    if t != "domain" and g.random() < 0.35:
        s["angvel"] = g.uniform(-2, 2) if dim == 2 else [g.uniform(-2, 2) for _ in range(3)]
    if t != "domain" and g.random() < 0.5:
        up = s.get("normal") or [0.0] * (dim - 1) + [1.0]
        k = g.choice([0.3, 1.0, 3.0, 3.0])
        s["vel"] = [g.uniform(-0.3, 0.3) + k * x for x in up]
    spec["sdfs"] = [s]
    spec["arrays"] = True
    rng = random.Random(seed)
    n = 120 if tier == "quick" else 600
    ev = simrun.gen_history(rng, n, change=0.15)
    for e in ev:
        if e["op"] == "step":
            e["n"] = e["n"] * rng.choice([1, 2, 3])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        e = {"op": "call", "what": "gravity", "v": [rng.uniform(-15, 15) for _ in range(dim)]}
        if t != "domain" and rng.random() < 0.4:
            e = {"op": "call", "what": "wall", "v": [x * rng.choice([-1.0, 0.0, 1.0]) + rng.uniform(-0.4, 0.4) for x in s.get("vel") or [0.0] * dim]}
        ev.insert(rng.randrange(len(ev)), e)
    return {"spec": spec, "init": rng.randrange(1 << 30), "throw": rng.choice([0.3, 1.0, 2.5, 4.0]), "dtf": rng.choice([1.0, 1.0, 2.0]), "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "collider": {k: v for k, v in trace["spec"]["sdfs"][0].items()}, "throw": trace["throw"], "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    if len(sp["bodies"]) > 1:
        for i in range(len(sp["bodies"])):
            yield dict(trace, spec=dict(sp, bodies=sp["bodies"][:i] + sp["bodies"][i + 1:]))
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def rotation(s, dim):
    """Rotation matrix of the collider at the start."""
    import numpy as np
    r = s.get("rot")
    if r is None:
        return np.eye(dim)
    if dim == 2:
        c, q = math.cos(r), math.sin(r)
        return np.array([[c, -q], [q, c]])
    w, x, y, z = r
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def turned(R, w, dt):
    """R after turning at the angular velocity w for a time dt."""
    import numpy as np
    if len(R) == 2:
        c, q = math.cos(w * dt), math.sin(w * dt)
        return np.array([[c, -q], [q, c]]) @ R
    w = np.asarray(w) * dt
    a = np.linalg.norm(w)
    if a == 0:
        return R
    K = np.cross(np.eye(3), w / a)
    return (np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K) @ R


def distance(s, pose, x, R=None):
    """Independent signed distance (negative inside the solid), in double precision."""
    import numpy as np
    if s["type"] == "domain":
        return np.min(np.concatenate([x - np.asarray(s["origin"]), np.asarray(s["end"]) - x], 1), 1)
    y = x - pose
    if R is not None:
        y = y @ R               # into the collider's own frame
    if s["type"] == "plane":
        return y @ np.asarray(s["normal"])
    if s["type"] == "sphere":
        return np.linalg.norm(y, axis=1) - s["radius"]
    d = np.abs(y) - np.asarray(s["size"]) / 2
    return np.linalg.norm(np.maximum(d, 0), axis=1) + np.minimum(d.max(1), 0)


def execute(trace, ctx, res):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    c = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    s = spec["sdfs"][0]
    gr = spec["grids"][0]
    h = gr["h"]
    bodies = spec["bodies"]
    params = spec["solver"]["params"]
    aflip = spec["solver"]["scheme"].lower() != "usl"
    cfl = params.get("cfl_limit", 0.5) if aflip else 0.5
    f64 = lambda x: np.asarray(x, np.float64)
    mp = lambda st, b: st.world.material_points[c.ix["body"][b]]
    gi = next(j for j, q in enumerate(c.state0.mechanics.forces) if hasattr(q, "gravity"))
    si = c.ix["sdf"][0]
    dt0 = spec_mod.safe_dt(spec) * trace["dtf"]
    impulses = not (aflip and params["use_dynamic_alpha"]) and s["type"] in ("plane", "domain") and s.get("angvel") is None
    reach = max(REACH[b["shape"]] for b in bodies)
    mu = {"domain": s.get("friction_walls", 0)}.get(s["type"], 1.0) * (1.0 if s["friction"] is None else s["friction"])
    stats = {"deep": 0.0, "near": 0}

    def on_step(n, prev, new, led):
        grav, pose, vel, alive, R = led
        if not alive:
            return led
        dt = float(prev.dt)
        if s["type"] != "domain":
            pose = pose + vel * dt
            if s.get("angvel") is not None:
                R = turned(R, s["angvel"], dt)
        near = 0
        for b, bd in enumerate(bodies):
            a, z = mp(prev, b), mp(new, b)
            x, v0, v1 = f64(z.position_stack), f64(a.velocity_stack), f64(z.velocity_stack)
            lim = 0.95 * cfl * h / dt
            V = f64(a.volume_stack) / bd["spacing"] ** dim
            if (not np.all(np.isfinite(v0)) or np.linalg.norm(v0, axis=1).max() > lim or V.max() > 2 or V.min() < 0.5
                    or np.any(x < np.asarray(gr["origin"]) + h) or np.any(x > np.asarray(gr["end"]) - h)):
                res.count("left-range")
                return (grav, pose, vel, False, R)
            d = distance(s, pose, x, R)
            stats["deep"] = max(stats["deep"], -d.min() / h)
            near += int((d < (reach + 1) * h).sum())
            if d.min() < -DEPTH * h:
                j = int(d.argmin())
                raise Violation("penetration", f"event {n}: step {int(new.step)}: particle {j} of body {b} ({bd['law']['type']}, {bd['shape']}) is {-d[j] / h:.3g} cells inside the {s['type']}")
        stats["near"] += near
        res.state(round(10 * stats["deep"]), near)
        if impulses:
            push(n, prev, new, dt, grav, pose)
        return (grav, pose, vel, True, R)

    def push(n, prev, new, dt, grav, pose):
        P, M, scale, x = np.zeros(dim), 0.0, 0.0, []
        for b, bd in enumerate(bodies):
            a, z = mp(prev, b), mp(new, b)
            m = f64(a.mass_stack)[:, None]
            v0, v1 = f64(a.velocity_stack), f64(z.velocity_stack)
            if np.linalg.norm(v1, axis=1).max() > 0.95 * cfl * h / dt:
                return
            P += (m * (v1 - v0)).sum(0)
            M += m.sum()
            sg = np.abs(f64(a.stress_stack)).sum((1, 2))
            scale += 2e-6 * float((m * (np.abs(v0) + np.abs(v1))).sum() + m.sum() * np.abs(grav).sum() * dt) + 1e-5 * dt * float((f64(a.volume_stack) * sg).sum()) / h
            scale += 2e-6 * float(m.sum()) * np.abs(f64(a.L_stack)).max() * h
            x.append(f64(a.position_stack))
            u = (x[-1] - np.asarray(gr["origin"])) / h + (0.5 if bd["shape"] == "quadratic" else 0.0)
            if np.any(np.abs(u - np.round(u)) < (1e-5 if bd["shape"] == "linear" else 1e-3)):
                return
        x = np.concatenate(x)
        J = P - M * grav * dt            # what the wall gave
        if s["type"] == "plane":
            nrm = f64(s["normal"])
        else:
            lo, hi = x - np.asarray(s["origin"]), np.asarray(s["end"]) - x
            close = [(ax, sg) for ax in range(dim) for sg, q in ((1, lo), (-1, hi)) if q[:, ax].min() < (reach + 1.7) * h]      # (boundaries act one cell early)
            if len(close) != 1:
                if not close and np.abs(J).max() > 3 * scale + 1e-10:
                    raise Violation("phantom-wall", f"event {n}: step {int(new.step)}: momentum {J.tolist()} came from a boundary that is {min(lo.min(), hi.min()) / h:.3g} cells away")
                return
            nrm = np.zeros(dim)
            nrm[close[0][0]] = close[0][1]
        jn = float(J @ nrm)
        jt = float(np.linalg.norm(J - jn * nrm))
        tol = 3 * scale + 1e-10
        res.count("impulses-judged")
        if jn > tol:
            res.count("impulses-nonzero")
        if not jn >= -tol:
            raise Violation("wall-pulls", f"event {n}: step {int(new.step)}: the {s['type']} changed the normal momentum by {jn:.6g} (tolerance {tol:.2g})")
        if not jt <= mu * max(jn, 0) + tol + mu * tol:
            raise Violation("friction", f"event {n}: step {int(new.step)}: the {s['type']} with friction {mu:g} pushed {jn:.6g} along its normal and {jt:.6g} along the wall (tolerance {tol:.2g})")

    # throw the bodies at the collider
    rs = np.random.RandomState(trace["init"] & 0x7fffffff)
    init = c.state0
    for b, bd in enumerate(bodies):
        q = mp(init, b)
        x = f64(q.position_stack) + (rs.rand(dim) - 0.5) * 0.05
        if dim == 3:
            x = 0.6 + (x - 0.5) * 0.8
        pose0, R0 = f64(s["pos"]) if s["type"] != "domain" else 0, rotation(s, dim)
        k = 0
        while distance(s, pose0, x, R0).min() < 0.02 and k < 400:      # starts outside
            x = x + (0.01 * f64(s["normal"]) if s["type"] == "plane" else np.array([0.0] * (dim - 1) + [0.01])) if s["type"] != "domain" else 0.5 + (x - 0.5) * 0.95
            k += 1
        t = rs.uniform(-1, 1, dim)
        t /= np.linalg.norm(t)
        if s["type"] == "plane" and t @ f64(s["normal"]) > 0:
            t = -t
        v = f64(q.velocity_stack) * 0.3 + t * trace["throw"]
        j = c.ix["body"][b]
        init = eqx.tree_at(lambda w: (w.world.material_points[j].position_stack, w.world.material_points[j].velocity_stack), init,
                           (jnp.asarray(x, jnp.float32), jnp.asarray(v, jnp.float32)))
    ev = []
    for e in trace["events"]:
        if e["op"] == "call":
            e = dict(e)

            def f(state, led, e=e):
                grav, pose, vel, alive, R = led
                val = jnp.asarray(e["v"], jnp.float32)
                if e["what"] == "gravity":
                    state = eqx.tree_at(lambda q: q.mechanics.forces[gi].gravity, state, val)
                    res.count("gravity-changes")
                    return state, (f64(val), pose, vel, alive, R)
                state = eqx.tree_at(lambda q: q.world.sdfs[si].velocity, state, val)
                res.count("wall-steering")
                return state, (grav, pose, f64(val), alive, R)
            e["_f"] = f
        ev.append(e)
    h_ = simrun.History(c, res, simrun.run_dir("c12"))
    try:
        h_.run(init, (f64(spec["forces"][0]["g"]), f64(s["pos"]) if "pos" in s else None, f64(s.get("vel") or [0.0] * dim), True, rotation(s, dim)), ev, dt0, on_step)
    finally:
        h_.close()
    res.count("depth-%02d" % min(30, int(10 * stats["deep"])))
    res.depth = (stats["deep"], reach, spec["solver"]["scheme"], [b["law"]["type"] for b in bodies])
    res.nontrivial = stats["near"] > 0


DEPTH = 0.5      # (in everything explored, no particle was ever inside at all)
