"""C09: collider motion depends only on elapsed time, not on how it was sliced."""
import math
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C09", "exploration"
TECHNIQUE = "deterministic simulation: seeded dt-slicing/steering/resume/rollback histories against exact rigid motion in double precision"
LEVEL_NOTE = ("Seeded search over shapes, poses, velocities and clock histories; the reference integrates rigid motion exactly in double precision, "
              "the 3D orientation is allowed the stated third-order error per step and single-precision round-off, everything else round-off only.")
GROUP, CHUNK = 10, 10
QUICK, THOROUGH = 320, 10000
RULE = ("each run is one seeded set-up (1-4 moving objects of any shape, 0-2 bodies) and one history of steps with dt changes, checkpoint resumes, rollbacks "
        "and occasional steering; non-trivial if an object moved over at least two different dt values; distinct by event-log digest")
STATE_MEASURE = "hash of (object, pose rounded to 3 digits) after every step"
REAL = ["builder, solvers, SDF objects, colliders", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt is the only clock the solver reads, and the scheduler sets it"]
ASSUMPTIONS = ["rotation per step below 0.3 rad, so that the third-order bound of the 3D integrator applies"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def gen_object(rng, dim):
    t = rng.choice(["plane", "sphere", "box", "capsule", "domain", "composite", "hollow"] + (["star"] if dim == 2 else ["cylinder", "torus", "gridsdf"]))
    s = {"type": t, "friction": rng.choice([None, 0.3]), "collider": rng.random() < 0.7}
    if t == "plane":
        s["normal"] = [rng.gauss(0, 1) for _ in range(dim)]
    elif t in ("sphere",):
        s["radius"] = rng.uniform(0.05, 0.4)
    elif t in ("capsule", "cylinder"):
        s["radius"], s["height"] = rng.uniform(0.05, 0.3), rng.uniform(0.1, 0.5)
    elif t == "torus":
        s["major"], s["minor"] = rng.uniform(0.2, 0.4), rng.uniform(0.02, 0.15)
    elif t == "box":
        s["size"] = [rng.uniform(0.1, 0.6) for _ in range(dim)]
    elif t == "hollow":
        s["height"], s["outer"], s["inner"], s["ring"] = rng.uniform(0.2, 0.6), rng.uniform(0.3, 0.5), rng.uniform(0.1, 0.25), rng.random() < 0.5
    elif t == "domain":
        s["origin"], s["end"] = [0.05] * dim, [0.95] * dim
        s["friction_walls"] = 0.5
    elif t == "composite":
        s["parts"] = [{"type": "box", "size": [rng.uniform(0.1, 0.6) for _ in range(dim)]}, {"type": "sphere", "radius": rng.uniform(0.1, 0.3)}]
    if t != "domain":
        s["pos"] = [rng.uniform(-0.5, 1.5) for _ in range(dim)]
        if rng.random() < 0.9:
            sc = rng.choice([0.1, 1.0, 10.0])
            s["vel"] = [rng.uniform(-sc, sc) for _ in range(dim)]
        if rng.random() < 0.85:
            sc = rng.choice([0.5, 3.0, 12.0])
            s["angvel"] = rng.uniform(-sc, sc) if dim == 2 else [rng.uniform(-sc, sc) for _ in range(3)]
        if rng.random() < 0.7:
            if dim == 2:
                s["rot"] = rng.uniform(-4, 4)
            else:
                q = [rng.gauss(0, 1) for _ in range(4)]
                n = math.sqrt(sum(x * x for x in q))
                s["rot"] = [x / n for x in q]
    return s


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    spec = spec_mod.gen_spec(g, max_bodies=2, sdfs=False, laws=["le", "nf"], multi_grid=True)
    if g.random() < 0.4:
        spec["bodies"], spec["forces"] = [], []
    spec["sdfs"] = [gen_object(g, spec["dim"]) for _ in range(g.randint(1, 4))]
    rng = random.Random(seed)
    dt0 = rng.choice([1e-3, 4e-3, 0.02])
    ev = simrun.gen_history(rng, 30 if tier == "quick" else 150, fs=(1.0, 0.7, 0.5, 0.3, 0.1, 0.01, 1e-4), change=0.4)
    steer = [i for i, s in enumerate(spec["sdfs"]) if s["type"] != "domain"]
    if steer and rng.random() < 0.3:
        dim = spec["dim"]
        for _ in range(rng.randint(1, 3)):
            ev.insert(rng.randrange(len(ev)), {"op": "call", "i": rng.choice(steer), "vel": [rng.uniform(-1, 1) for _ in range(dim)],
                                               "ang": rng.uniform(-3, 3) if dim == 2 else [rng.uniform(-3, 3) for _ in range(3)]})
    return {"spec": spec, "dt0": dt0, "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "dt0": trace["dt0"], "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    if sp["bodies"]:
        yield dict(trace, spec=dict(sp, bodies=[], forces=[]))
    for i in range(len(sp["sdfs"])):
        if len(sp["sdfs"]) > 1 and not any(e["op"] == "call" for e in trace["events"]):
            yield dict(trace, spec=dict(sp, sdfs=sp["sdfs"][:i] + sp["sdfs"][i + 1:]))
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def qmul(a, b):
    import numpy as np
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])


def qexp(w, dt):
    import numpy as np
    th = np.linalg.norm(w) * dt
    if th == 0:
        return np.array([1.0, 0, 0, 0])
    return np.concatenate([[math.cos(th / 2)], math.sin(th / 2) * np.asarray(w) / np.linalg.norm(w)])


def qrot(q, v):
    import numpy as np
    u = q[1:]
    c = np.cross(u, v)
    return v + 2 * (q[0] * c + np.cross(u, c))


def rotate(rot, v):
    import numpy as np
    if np.ndim(rot) == 0:
        c, s = math.cos(rot), math.sin(rot)
        return np.stack([c * v[..., 0] - s * v[..., 1], s * v[..., 0] + c * v[..., 1]], -1)
    return qrot(rot, v)


EPS = 1.2e-7


class Pose:
    """Exact rigid motion of one object, with the tolerance accumulated so far."""
    __slots__ = ("com", "rot", "vel", "ang", "ctol", "rtol")

    def __init__(self, com, rot, vel, ang, ctol, rtol):
        self.com, self.rot, self.vel, self.ang, self.ctol, self.rtol = com, rot, vel, ang, ctol, rtol

    def move(self, dt):
        import numpy as np
        com = self.com + self.vel * dt
        ctol = self.ctol + EPS * float(np.max(np.abs(self.com)) + 2 * np.max(np.abs(self.vel * dt)))
        if np.ndim(self.rot) == 0:
            rot = self.rot + self.ang * dt
            rtol = self.rtol + EPS * float(abs(rot) + 2 * abs(self.ang * dt))
        else:
            rot = qmul(qexp(self.ang, dt), self.rot)
            th = float(np.linalg.norm(self.ang)) * dt
            rtol = self.rtol + th ** 3 / 12 * 1.02 + 12 * EPS
        return Pose(com, rot, self.vel, self.ang, ctol, rtol)


def execute(trace, ctx, res):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]

    def make():
        c = simrun.Compiled(spec)
        logics = [c.solver.sdf_logics[c.ix["sdf"][i]] for i in range(len(spec["sdfs"]))]
        c.probe = [eqx.filter_jit(lambda s, body, world, dt, l=l: (l.get_signed_distance_stack(s, body), l.get_velocity_stack(s, world, dt)))
                   for l in logics]
        rs = np.random.RandomState(7)
        c.local = rs.uniform(-0.4, 0.4, size=(12, dim))
        c.world = rs.uniform(-0.5, 1.5, size=(6, dim))
        c.d0 = []
        for i in range(len(spec["sdfs"])):
            st = c.state0.world.sdfs[c.ix["sdf"][i]]
            p = pose0(spec["sdfs"][i], st, dim)
            pts = p.com + rotate(p.rot, c.local) if spec["sdfs"][i]["type"] != "domain" else c.world
            d, _ = c.probe[i](simrun.traced(st), jnp.asarray(pts, jnp.float32), jnp.asarray(c.world, jnp.float32), jnp.float32(0.0))
            c.d0.append((pts, np.asarray(d, np.float64)))
        return c

    c = ctx["cache"].get(spec, make)
    poses0 = [pose0(s, c.state0.world.sdfs[c.ix["sdf"][i]], dim) for i, s in enumerate(spec["sdfs"])]
    # the built state is what was asked for
    for i, s in enumerate(spec["sdfs"]):
        st = c.state0.world.sdfs[c.ix["sdf"][i]]
        check_pose(res, "build", i, s, st, poses0[i], poses0[i])
    dts = set()
    count = [0]

    def on_step(n, prev, new, led):
        dt = float(prev.dt)
        dts.add(dt)
        out = []
        count[0] += 1
        for i, s in enumerate(spec["sdfs"]):
            a, b = prev.world.sdfs[c.ix["sdf"][i]], new.world.sdfs[c.ix["sdf"][i]]
            p = led[i] if s["type"] == "domain" else led[i].move(dt)
            check_pose(res, f"event {n}", i, s, b, p, led[i])
            out.append(p)
            res.note(i, np.asarray(b.center_of_mass).tobytes(), np.asarray(b.rotation).tobytes())
            res.state(i, [round(float(x), 3) for x in np.asarray(b.center_of_mass)])
        if count[0] % 4 == 1:
            probe(n, new, dt, out)
        return tuple(out)

    def probe(n, new, dt, led):
        for i, s in enumerate(spec["sdfs"]):
            st, p = new.world.sdfs[c.ix["sdf"][i]], led[i]
            pts0, d0 = c.d0[i]
            pts = pts0 if s["type"] == "domain" else p.com + rotate(p.rot, c.local)
            d, v = c.probe[i](simrun.traced(st), jnp.asarray(pts, jnp.float32), jnp.asarray(c.world, jnp.float32), jnp.float32(dt))
            d, v = np.asarray(d, np.float64), np.asarray(v, np.float64)
            tol = 1e-5 * (1 + np.max(np.abs(p.com))) + p.ctol + p.rtol * 1.0
            if s["type"] == "gridsdf":
                tol *= 3
            bad = np.abs(d - d0) > tol
            if bad.any():
                j = int(np.argmax(np.abs(d - d0)))
                raise Violation("shape-motion", f"event {n}: object {i} ({s['type']}): distance at a body-fixed point was {d0[j]:.6g} and is {d[j]:.6g} (tolerance {tol:.2g})")
            if s["type"] == "domain":
                w = np.zeros_like(v)
            else:
                r = c.world - p.com
                cr = np.stack([-p.ang * r[:, 1], p.ang * r[:, 0]], -1) if dim == 2 else np.cross(p.ang, r)
                w = p.vel + cr
            vt = 1e-5 * (1 + np.max(np.abs(w))) + (p.ctol * np.max(np.abs(p.ang)) * 2 if s["type"] != "domain" else 0)
            if np.max(np.abs(v - w)) > vt:
                raise Violation("surface-velocity", f"event {n}: object {i} ({s['type']}): surface velocity differs from v + w x r by {np.max(np.abs(v - w)):.3g}")
            res.count("probes")

    ev = []
    for e in trace["events"]:
        if e["op"] == "call":
            e = dict(e)

            def f(state, led, e=e):
                j = c.ix["sdf"][e["i"]]
                st = state.world.sdfs[j]
                vel = jnp.asarray(e["vel"], jnp.float32)
                ang = jnp.asarray(e["ang"], jnp.float32) if dim == 3 or hasattr(st.angular_velocity, "dtype") else e["ang"]
                state = eqx.tree_at(lambda q: (q.world.sdfs[j].velocity, q.world.sdfs[j].angular_velocity), state, (vel, ang))
                led = list(led)
                p = led[e["i"]]
                led[e["i"]] = Pose(p.com, p.rot, np.asarray(vel, np.float64), np.asarray(ang, np.float64).astype(np.float64) if dim == 3 else float(np.float32(e["ang"])), p.ctol, p.rtol)
                res.count("steering")
                return state, tuple(led)
            e["_f"] = f
        ev.append(e)
    h = simrun.History(c, res, simrun.run_dir("c09"))
    try:
        h.run(c.state0, tuple(poses0), ev, trace["dt0"] if not spec["bodies"] else min(trace["dt0"], 2e-3), on_step)
    finally:
        h.close()
    res.nontrivial = len(dts) > 1 and any(s.get("vel") or s.get("angvel") for s in spec["sdfs"])


def pose0(s, st, dim):
    """What the set-up asked for."""
    import numpy as np
    f = lambda x: np.asarray(x, np.float32).astype(np.float64)
    if s["type"] == "domain":
        return Pose(f([0.5 * (a + b) for a, b in zip(s["origin"], s["end"])]), 0.0 if dim == 2 else np.array([1.0, 0, 0, 0]), np.zeros(dim), 0.0 if dim == 2 else np.zeros(3), 1e-6, 1e-6)
    com = f(s["pos"])
    vel = f(s.get("vel") or [0.0] * dim)
    if dim == 2:
        return Pose(com, float(f(s.get("rot") or 0.0)), vel, float(f(s.get("angvel") or 0.0)), EPS * float(np.max(np.abs(com))), 1e-6)
    return Pose(com, f(s.get("rot") or [1.0, 0, 0, 0]), vel, f(s.get("angvel") or [0.0] * 3), EPS * float(np.max(np.abs(com))), 1e-6)


def check_pose(res, when, i, s, st, p, before):
    import numpy as np
    name = f"{when}: object {i} ({s['type']})"
    com = np.asarray(st.center_of_mass, np.float64)
    if not np.all(np.abs(com - p.com) <= p.ctol + 1e-30):
        raise Violation("position", f"{name}: centre at {com.tolist()}, the elapsed time puts it at {p.com.tolist()} (tolerance {p.ctol:.2g})")
    rot = np.asarray(st.rotation, np.float64)
    if rot.ndim == 0:
        d = (float(rot) - p.rot + math.pi) % (2 * math.pi) - math.pi
        if not abs(d) <= p.rtol:
            raise Violation("rotation", f"{name}: rotated by {float(rot)!r}, the elapsed time puts it at {p.rot!r} (tolerance {p.rtol:.2g})")
    else:
        n = float(np.linalg.norm(rot))
        if not abs(n - 1) < 1e-5:
            raise Violation("quaternion-norm", f"{name}: orientation quaternion has norm {n!r}")
        d = min(np.linalg.norm(rot - p.rot), np.linalg.norm(rot + p.rot))     # half-angle distance
        if not d <= 0.5 * p.rtol + 2e-6:
            raise Violation("rotation", f"{name}: orientation {rot.tolist()} is {2 * d:.3g} rad from rigid motion over the elapsed time (allowed {p.rtol:.2g})")
    v, w = np.asarray(st.velocity), np.asarray(st.angular_velocity)
    if not (np.array_equal(v.astype(np.float64), p.vel) and np.array_equal(w.astype(np.float32).astype(np.float64), np.asarray(p.ang))):
        raise Violation("velocity-changed", f"{name}: velocity {v.tolist()}, {w.tolist()} where {p.vel.tolist()}, {np.asarray(p.ang).tolist()} was set")
