"""C10: mass and momentum are conserved over every history; uniform motion is ballistic."""
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C10", "exploration"
TECHNIQUE = "deterministic simulation: seeded step/dt/gravity/resume/rollback histories, momentum ledger checked after every step"
LEVEL_NOTE = ("Seeded search over set-ups and histories; the ledger is kept in double precision and allows single-precision round-off relative to the "
              "momentum and the internal-force impulse of the step. Steps in which a particle sits within 0.1% of a cell of a support edge are not judged "
              "(the solvers drop forces on nodes of vanishing mass there).")
GROUP, CHUNK = 10, 10
QUICK, THOROUGH = 320, 10000
RULE = ("each run is one seeded set-up without colliders or damping and one history of steps with dt and gravity changes, checkpoint resumes and rollbacks; "
        "a third of the set-ups are bodies in uniform motion that must stay stress free on the ballistic path; non-trivial if at least 5 steps were judged; distinct by event-log digest")
STATE_MEASURE = "hash of (body, momentum rounded to 3 digits) after every step"
REAL = ["builder, solvers, gravity, laws, shape functions", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt and gravity are the only inputs of a step, and the scheduler sets them"]
ASSUMPTIONS = ["material at least two cells from the grid edge and below the CFL limit (a run ends when it leaves that range)"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    ballistic = g.random() < 0.35
    spec = spec_mod.gen_spec(g, sdfs=False, damping=False, rigid=False, laws=["le", "nf", "dp"] if ballistic else None)
    dim = spec["dim"]
    if spec["solver"]["scheme"] != "usl":
        spec["solver"]["params"]["use_dynamic_alpha"] = False
    h = spec["grids"][0]["h"]
    for gr in spec["grids"]:
        gr["origin"] = [-0.5 - h * g.choice([0, 1])] * dim if dim == 2 else [-0.5] * dim
        gr["end"] = [1.5] * dim if dim == 2 else [1.5] * dim
        gr.update(spec_mod.uneven(g, gr, 3 if dim == 2 else 1))
    if ballistic:
        spec["grids"] = (spec["grids"] * 3)[:len(spec["bodies"])]
        for i, b in enumerate(spec["bodies"]):
            b["g"] = i
            b["vgrad"] = 0.0
    else:
        for b in spec["bodies"]:
            if b["law"]["type"] in ("le", "nf") and g.random() < 0.5:
                s = [[g.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
                mag = 0.02 * (b["law"].get("E") or b["law"].get("K"))
                b["stress0"] = [[mag * (s[i][j] + s[j][i]) / 2 for j in range(3)] for i in range(3)]
    spec["forces"] = []
    for _ in range(g.choice([0, 1, 1, 2])):
        f = {"type": "gravity", "g": [g.uniform(-10, 10) for _ in range(dim)], "on_grid": g.random() < 0.5}
        if g.random() < 0.4:
            if f["on_grid"]:
                f["grids"] = sorted(g.sample(range(len(spec["grids"])), g.randint(1, len(spec["grids"]))))
            else:
                f["bodies"] = sorted(g.sample(range(len(spec["bodies"])), g.randint(1, len(spec["bodies"]))))
        spec["forces"].append(f)
    rng = random.Random(seed)
    ev = simrun.gen_history(rng, 40 if tier == "quick" else 200)
    if spec["forces"] and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            ev.insert(rng.randrange(len(ev)), {"op": "call", "i": rng.randrange(len(spec["forces"])), "g": [rng.uniform(-20, 20) for _ in range(dim)]})
    return {"spec": spec, "ballistic": ballistic, "init": rng.randrange(1 << 30), "vamp": 0.0 if ballistic else rng.choice([0.1, 0.5]), "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "ballistic": trace["ballistic"], "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    if not any(e["op"] == "call" for e in trace["events"]):
        for i in range(len(sp["forces"])):
            yield dict(trace, spec=dict(sp, forces=sp["forces"][:i] + sp["forces"][i + 1:]))
    if len(sp["bodies"]) > 1 and not any(f.get("bodies") for f in sp["forces"]):
        for i in range(len(sp["bodies"])):
            yield dict(trace, spec=dict(sp, bodies=sp["bodies"][:i] + sp["bodies"][i + 1:]))
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def execute(trace, ctx, res):
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    spec = trace["spec"]
    dim = spec["dim"]
    c = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    ix = c.ix
    params = spec["solver"]["params"]
    cfl = params.get("cfl_limit", 0.5) if spec["solver"]["scheme"].lower() != "usl" else 0.9
    cutoff = params.get("small_mass_cutoff", 1e-7) if spec["solver"]["scheme"].lower() != "usl" else 1e-12
    bodies = spec["bodies"]
    # body -> indices of the gravity forces that act on it
    acts = [[i for i, f in enumerate(spec["forces"])
             if (b["g"] in f.get("grids", range(len(spec["grids"]))) if f["on_grid"] else bi in f.get("bodies", range(len(bodies))))]
            for bi, b in enumerate(bodies)]

    gstates = [j for j, s in enumerate(c.state0.mechanics.forces) if hasattr(s, "gravity")]
    grav_of = dict(zip(sorted(ix["force"]), gstates))      # registration order is spec order here
    assert len(gstates) == len(spec["forces"])

    mp = lambda s, b: s.world.material_points[ix["body"][b]]
    f64 = lambda x: np.asarray(x, np.float64)
    judged = [0]
    g0 = [f64(np.float32(f["g"])) for f in spec["forces"]]
    for i, f in enumerate(spec["forces"]):
        if not np.array_equal(np.asarray(c.state0.mechanics.forces[grav_of[i]].gravity, np.float32), np.asarray(f["g"], np.float32)):
            raise Violation("gravity-lost", f"gravity {i} was registered as {f['g']} and is {np.asarray(c.state0.mechanics.forces[grav_of[i]].gravity).tolist()}")
    mass0 = [np.asarray(mp(c.state0, b).mass_stack) for b in range(len(bodies))]
    for b, bd in enumerate(bodies):
        a = spec_mod.body_arrays(spec, bd)
        if bd["law"]["type"] != "mcc" and not np.allclose(mass0[b], a["vol"] * a["rho"], rtol=1e-6):
            raise Violation("mass", f"body {b} was registered with masses {(a['vol'] * a['rho'])[:3].tolist()} and is built with {mass0[b][:3].tolist()}")

    def in_range(s, dt):
        """The conditions the statement makes; also whether a particle sits on a support edge."""
        edge = False
        for b, bd in enumerate(bodies):
            m = mp(s, b)
            gr = spec["grids"][bd["g"]]
            h = gr["h"]
            x, v = f64(m.position_stack), f64(m.velocity_stack)
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(v))):
                return True, edge          # judged: it was in range a step ago
            if np.any(x < np.asarray(gr["origin"]) + 2 * h) or np.any(x > np.asarray(gr["end"]) - 2 * h):
                return False, edge
            if np.max(np.linalg.norm(v, axis=1)) * dt > 0.9 * cfl * h:
                return False, edge
            if np.max(f64(m.volume_stack) / bd["spacing"] ** dim) > 1.3 or np.min(f64(m.volume_stack) / bd["spacing"] ** dim) < 0.75:
                return False, edge        # blown apart: the deformation is no longer a physical one
            u = (x - np.asarray(gr["origin"])) / h + (0.5 if bd["shape"] == "quadratic" else 0.0)
            lim = 1e-5 if bd["shape"] == "linear" else 1e-3
            if np.any(np.abs(u - np.round(u)) < lim):
                edge = True
        return True, edge

    def on_step(n, prev, new, led):
        grav, path = led
        dt = float(prev.dt)
        for b in range(len(bodies)):
            if not np.array_equal(np.asarray(mp(new, b).mass_stack), mass0[b]):
                raise Violation("mass", f"event {n}: masses of body {b} changed in step {int(new.step)}")
        if path is None:
            return (grav, None)
        (ok, edge) = in_range(prev, dt)
        ok2, _ = in_range(new, dt)
        if not (ok and ok2):
            res.count("left-range")
            return (grav, None)
        # momentum, grid by grid (bodies on one grid exchange momentum)
        for gi in range(len(spec["grids"])):
            P0, P1, want, scale = np.zeros(dim), np.zeros(dim), np.zeros(dim), 0.0
            here = [b for b, bd in enumerate(bodies) if bd["g"] == gi]
            for b in here:
                a, z = mp(prev, b), mp(new, b)
                m = f64(a.mass_stack)[:, None]
                v0, v1 = f64(a.velocity_stack), f64(z.velocity_stack)
                P0 += (m * v0).sum(0)
                P1 += (m * v1).sum(0)
                G = sum((grav[i] for i in acts[b]), np.zeros(dim))
                want += m.sum() * G * dt
                # the internal-force impulse is what cancels; B p_stack carries APIC momentum of the same order as v
                scale += 2e-6 * float((m * (np.abs(v0) + np.abs(v1))).sum() + m.sum() * np.abs(G).sum() * dt)
                s = np.abs(f64(a.stress_stack)).sum((1, 2))
                scale += 1e-5 * dt * float((f64(a.volume_stack) * s).sum()) / spec["grids"][gi]["h"]
                L = np.abs(f64(a.L_stack)).max() if np.ndim(a.L_stack) else 0.0
                scale += 2e-6 * float(m.sum()) * L * spec["grids"][gi]["h"]
            if here and not edge:
                judged[0] += 1
                err = np.abs(P1 - P0 - want)
                if not np.all(err <= scale + 1e-12):
                    raise Violation("momentum", f"event {n}: grid {gi}: step {int(new.step)} (dt {dt:.3g}) changed the total momentum by {(P1 - P0).tolist()}, "
                                                f"mass x gravity x dt is {want.tolist()} (tolerance {scale:.2g})")
            res.state(gi, [round(float(x), 3) for x in P1])
        if edge:
            res.count("edge-steps")
        if trace["ballistic"]:
            path = ballistic(n, prev, new, dt, grav, path)
        for b in range(len(bodies)):
            res.note(np.asarray(mp(new, b).velocity_stack).tobytes())
        return (grav, path)

    def ballistic(n, prev, new, dt, grav, path):
        out = []
        for b, bd in enumerate(bodies):
            z = mp(new, b)
            v, lo, hi, cnt, vm, lsum, dm, lfirst = path[b]
            h = spec["grids"][bd["g"]]["h"]
            G = sum((grav[i] for i in acts[b]), np.zeros(dim))
            vn = v + G * dt
            a_, b_ = v * dt, vn * dt
            lo, hi, cnt = lo + np.minimum(a_, b_), hi + np.maximum(a_, b_), cnt + 1
            vm = max(vm, float(np.abs(vn).max()), float(np.abs(v).max()))
            # Next to the edge of a kernel: nodes lighter than the solver's cut-off, or whose weight is lost to round-off, take no part,
            # which matters to gradients.
            u = (f64(mp(prev, b).position_stack) - np.asarray(spec["grids"][bd["g"]]["origin"])) / h + (0.5 if bd["shape"] == "quadratic" else 0.0)
            edge = max(float(np.abs(u - np.round(u)).min()), 1e-6)
            lost = 12 * cutoff / float(mass0[b].min()) / (edge * h) * vm
            lost += {"linear": 0.0, "quadratic": 3e-3 if edge < 1e-3 else 0.0, "cubic": 3e-4 if edge < 1e-2 else 0.0}[bd["shape"]] * vm / h
            lsum += lost
            c0 = spec_mod.wave_speed(bd["law"], bd["rho"])
            l0, l1 = np.abs(f64(mp(prev, b).L_stack)).max(), np.abs(f64(z.L_stack)).max()
            lfirst = l1 if lfirst is None else lfirst
            # round-off that grew steadily over many steps (light nodes at a free surface are not stable) is no deformation of the body
            if cnt > 4 and l1 > 1e3 * lfirst and (l0 > 0.2 * l1 or l0 > 20 * max(lfirst, 1e-7)):
                res.count("noise-grown")
                return None
            vtol = lsum * h * 0.25 + 3e-6 * cnt * (vm + c0 + 0.1) + 1e-5 * vm      # round-off, and elastic waves of round-off strains
            dm = max(dm, dt)
            xs = f64(z.position_stack) - f64(mp(init, b).position_stack)
            xtol = 1e-6 * cnt + 1e-5 * float(np.abs(hi).max() + np.abs(lo).max()) + vtol * dm * cnt
            verr = np.abs(f64(z.velocity_stack) - vn).max()
            if not verr <= vtol:
                raise Violation("ballistic-velocity", f"event {n}: body {b} in uniform motion: a particle's velocity is {verr:.3g} off {vn.tolist()} after {cnt} steps (tolerance {vtol:.2g})")
            if not (np.all(xs >= lo - xtol) and np.all(xs <= hi + xtol)):
                raise Violation("ballistic-path", f"event {n}: body {b} in uniform motion: displacement {xs[0].tolist()} after {cnt} steps, the dt values used give {lo.tolist()} to {hi.tolist()}")
            Ltol = (vtol * 4) / h
            if not l1 <= Ltol:
                raise Violation("ballistic-deformation", f"event {n}: body {b} in uniform motion has a velocity gradient of {l1:.3g} (tolerance {Ltol:.2g})")
            V = f64(z.volume_stack) / f64(mp(init, b).volume_stack)
            stol = Ltol * dm * cnt + 1e-6 * cnt
            if not np.abs(V - 1).max() <= stol:
                raise Violation("ballistic-volume", f"event {n}: body {b} in uniform motion changed its volume by {np.abs(V - 1).max():.3g} (tolerance {stol:.2g})")
            E = {"le": "E", "nf": "K", "dp": "K"}[bd["law"]["type"]]
            sig = f64(z.stress_stack)
            s_tol = bd["law"][E] * stol * (10 if bd["law"]["type"] == "nf" else 3) + 1e-3 + bd["law"].get("viscosity", 0.0) * Ltol * 4
            if not np.abs(sig - f64(mp(init, b).stress_stack)).max() <= s_tol + np.abs(sig0[b]):
                raise Violation("ballistic-stress", f"event {n}: body {b} in uniform motion is stressed by {np.abs(sig).max():.3g} (tolerance {s_tol:.2g})")
            out.append((vn, lo, hi, cnt, vm, lsum, dm, lfirst))
        return tuple(out)

    ev = []
    for e in trace["events"]:
        if e["op"] == "call":
            e = dict(e)

            def f(state, led, e=e):
                g, path = led
                val = jnp.asarray(e["g"], jnp.float32)
                state = eqx.tree_at(lambda q: q.mechanics.forces[grav_of[e["i"]]].gravity, state, val)
                g = list(g)
                g[e["i"]] = f64(val)
                res.count("gravity-changes")
                return state, (tuple(g), path)
            e["_f"] = f
        ev.append(e)
    init = c.state0
    if trace["ballistic"]:
        # different starting velocities per run, uniform over the body
        rs = np.random.RandomState(trace["init"] & 0x7fffffff)
        vs = [rs.uniform(-1, 1, dim) for _ in bodies]
        off = [rs.uniform(-0.05, 0.05, dim) for _ in bodies]
        for b in range(len(bodies)):
            j = ix["body"][b]
            q = init.world.material_points[j]
            init = eqx.tree_at(lambda s: (s.world.material_points[j].velocity_stack, s.world.material_points[j].position_stack), init,
                               (jnp.broadcast_to(jnp.asarray(vs[b], jnp.float32), q.velocity_stack.shape), q.position_stack + jnp.asarray(off[b], jnp.float32)))
        path0 = tuple((f64(np.float32(v)), np.zeros(dim), np.zeros(dim), 0, 0.0, 0.0, 0.0, None) for v in vs)
        sig0 = [0.0] * len(bodies)
    else:
        init = simrun.perturb(init, trace["init"], dim, vamp=trace["vamp"], xamp=0.004)
        path0 = ()
    h = simrun.History(c, res, simrun.run_dir("c10"))
    try:
        h.run(init, (tuple(g0), path0), ev, spec_mod.safe_dt(spec), on_step)
    finally:
        h.close()
    res.count("judged-steps", judged[0])
    res.nontrivial = judged[0] >= 5
