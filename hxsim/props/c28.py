"""C28: what the rerun viewer is sent for a step is the data of that step."""
import os
import random

from .. import env, simrun, spec as spec_mod, storage, threads
from ..engine import Violation

ID, LEVEL = "C28", "exploration"
TECHNIQUE = "deterministic simulation: viewer callbacks delivered late, reordered, duplicated and line-interleaved by a seeded scheduler, the recording read back"
LEVEL_NOTE = ("Seeded search over delivery orders and thread interleavings (a switch between any two lines of library code); the real rerun SDK records to a file "
              "that is read back with the SDK's own reader. The viewer application itself is not run.")
GROUP, CHUNK = 25, 25
QUICK, THOROUGH = 600, 12000
RULE = ("each run is one visualizer in save mode receiving the output callbacks (time, particles of every body, SDF surface) of several steps in a seeded order with "
        "duplicates, one at a time or in up to five threads interleaved line by line; non-trivial if the order differs from step order or threads overlapped; "
        "distinct by event-log digest (which contains the schedule)")
STATE_MEASURE = "hash of (callbacks finished) when a callback ends"
REAL = ["hydraxmpm.common.rerun (RerunVisualizer)", "rerun SDK recording to a file and reading it back", "SDF objects", "scikit-image, matplotlib colour maps"]
STUB = ["delivery of debug callbacks (handed out by the scheduler)", "thread scheduler (settrace)", "viewer process (never spawned)"]
ASSUMPTIONS = ["one visualizer per process (rerun.init makes the newest recording the process-wide target)", "a callback sets the time before it logs, as in the documented usage"]
PROPS = ["velocity_stack", "velocity_stack", "mass_stack", "stress_stack", "pressure_stack", "nothing_stack"]


def make_ctx():
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    os.environ["RERUN"] = "on"
    threads.patch()
    threads.patch_library()
    d = os.path.join(env.scratch(), "rr")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    from hydraxmpm.common import rerun as m
    m.rr.spawn = lambda *a, **k: None
    m.rr.serve = lambda *a, **k: None
    return {"m": m, "cfg": {}, "dir": d}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    cfg = g.randrange(storage.NCFG)
    rng = random.Random(seed)
    nsteps = rng.randint(1, 5)
    steps = rng.sample([0, 1, 2, 3, 10, 11, 100, 1000, 99999, 100000, 2 ** 31 - 1], nsteps)
    steps.sort()
    dtm = rng.choice([1e-3, 0.1, 1.0, 3.7e-5])
    em = [{"step": s, "t": round(i * dtm * rng.choice([1.0, 1.5]) + rng.choice([0.0, 0.0, 12.0]), 9), "c": rng.randrange(1 << 30)} for i, s in enumerate(steps)]
    ev = []
    for i in range(nsteps):
        ev += [{"i": i}] * rng.choice([1, 1, 2, 3])
    how = rng.choice(["late", "shuffle", "threads", "threads"])
    if how != "late":
        rng.shuffle(ev)
    return {"cfg": cfg, "emit": em, "events": ev, "how": how, "prop": rng.choice(PROPS), "color": rng.choice([None, None, None, [10, 200, 30]]),
            "vlim": rng.choice([None, None, [0.0, 0.5]]), "scale": rng.choice([1.0, 2.0]), "root": rng.choice(["Sim_A", "Sim_B", "x/y"]),
            "sdf": rng.choice([0, 0, 0, 2, 2, 3]), "win": [[rng.choice([-1.0, 0.0, rng.uniform(-12, 12)]), rng.choice([2.0, rng.uniform(2.0, 3.0)])] for _ in range(3)], "domain": rng.random() < 0.3, "width": rng.choice([2, 3, 5]), "policy": rng.choice(["random", "random", "pct", "meet", "meet"]),
            "p": rng.choice([0.05, 0.2, 0.5, 0.9]), "sched": rng.randrange(1 << 30), "raw": rng.random() < 0.5}


def sample(trace):
    return dict(trace)


def shrink(trace):
    for k, v in (("sdf", 0), ("domain", False), ("color", None), ("vlim", None), ("width", 2), ("cfg", 0), ("scale", 1.0)):
        if trace[k] != v:
            yield dict(trace, **{k: v})
    if trace["how"] == "threads":
        yield dict(trace, how="shuffle")


def execute(trace, ctx, res):
    import numpy as np
    import jax.numpy as jnp
    m = ctx["m"]
    rr = m.rr
    if trace["cfg"] not in ctx["cfg"]:
        ctx["cfg"].clear()
        ctx["cfg"][trace["cfg"]] = spec_mod.build(spec_mod.gen_spec(random.Random(f"storage-cfg:{trace['cfg']}")))[1]
    base = ctx["cfg"][trace["cfg"]]
    bodies = [q for q in base.world.material_points if hasattr(q, "volume0_stack")]
    states = []
    for e in trace["emit"]:
        rs = np.random.RandomState(e["c"] & 0x7fffffff)
        out = []
        for q in bodies:
            f = {}
            for name in ("position_stack", "velocity_stack", "mass_stack", "volume0_stack", "volume_stack", "stress_stack", "L_stack"):
                a = np.asarray(getattr(q, name))
                f[name] = jnp.asarray(rs.rand(*a.shape) + 0.01, a.dtype)
            import equinox as eqx
            out.append(eqx.tree_at(lambda w: tuple(getattr(w, n) for n in f), q, tuple(f.values())))
        states.append(out)
    path = os.path.join(ctx["dir"], "simulation.rrd")
    if os.path.exists(path):
        os.unlink(path)
    v = m.RerunVisualizer(recording_id=f"r{trace['sched']}", root_path=trace["root"], mode="save")
    logic = ctx.setdefault("sphere", None)
    if trace["sdf"]:
        from hydraxmpm.sdf import sdfcollection as sc
        logic = sc.SphereSDF(radius=0.4)
    order = []

    def sdf_pos(i):
        p = [a + b / 2 for a, b in trace["win"][:trace["sdf"]]]
        return [p[0] + 0.05 * i - 0.1] + p[1:]

    def callback(i):
        e = trace["emit"][i]
        v.log_time(current_step=e["step"], current_time=e["t"])
        for b, mp in enumerate(states[i]):
            k = {}
            if trace["vlim"]:
                k = dict(v_min=trace["vlim"][0], v_max=trace["vlim"][1])
            v.log_material_points(mp, label=f"body_{b}", color=trace["color"], property_name=trace["prop"], scale_radius=trace["scale"], **k)
        if trace["sdf"]:
            d = trace["sdf"]
            v.log_sdf(logic, logic.create_state(center_of_mass=jnp.asarray(sdf_pos(i))), resolution=24 if d == 2 else 16, label="surface",
                      start=tuple(a for a, _ in trace["win"][:d]), end=tuple(a + b for a, b in trace["win"][:d]))
        order.append(i)
        res.state(len(order))

    if trace["domain"]:
        v.log_static_domain(origin=[-1.0, -0.5], end=[1.0, 2.0], cell_size=0.25)
    ev = [e["i"] for e in trace["events"]]
    if trace["how"] != "threads":
        for i in ev:
            callback(i)
    else:
        sch = threads.Sched(random.Random(trace["sched"]), p=trace["p"], policy=trace["policy"], changes=5, horizon=60 * max(1, len(ev)))
        pend = list(ev)

        def worker():
            while pend:
                callback(pend.pop(0))
        for w in range(trace["width"]):
            sch.add(f"w{w}", worker)
        try:
            sch.run()
        except threads.Stuck as x:
            raise Violation("stuck", x)
        for t in sch.tasks:
            if t.error is not None:
                raise t.error
        res.count("thread-switches", sch.switches)
        res.count("switch-points", sch.points)
        res.count("stalls", sch.stalls)
        res.note(sch.trace_log)
    rr.disconnect()
    res.count("callbacks", len(ev))
    res.count("fault:duplicated", len(ev) - len(set(ev)))
    res.count("fault:out-of-order", sum(1 for a, b in zip(ev, ev[1:]) if b < a))
    res.sim_time += max([e["t"] for e in trace["emit"]])
    res.nontrivial = len(ev) > 1 and (trace["how"] == "threads" or ev != sorted(ev))
    res.note(order)

    # read the recording back
    if not os.path.exists(path):
        raise Violation("not-recorded", "nothing was recorded in save mode")
    from rerun.chunk import RrdReader
    rows = {}
    try:
        for c in RrdReader(path).stream():
            ent = str(c.entity_path).strip("/")
            if ent.startswith("__"):
                continue
            b = c.to_record_batch().to_pydict()
            n = len(next(iter(b.values())))
            for i in range(n):
                rows.setdefault(ent, []).append((c.is_static, {k: x[i] for k, x in b.items()}))
    except Exception as x:
        raise Violation("not-recorded", f"the recording does not read back: {type(x).__name__}: {str(x)[:200]}")
    root = trace["root"].strip("/")
    want = {f"{root}/body_{b}": b for b in range(len(bodies))} if ev else {}
    if trace["sdf"] and ev:
        want[f"{root}/surface"] = "sdf"
    if trace["domain"]:
        want[f"{root}/domain"] = "domain"
    if set(rows) - {root} != set(want):
        raise Violation("entities", f"recorded {sorted(rows)}, wanted {sorted(want)}")
    by = {e["step"]: i for i, e in enumerate(trace["emit"])}
    for ent, what in want.items():
        seen = set()
        for static, r in rows[ent]:
            if what == "domain":
                if not static:
                    raise Violation("domain", "the static domain is tied to a time")
                c, hs = np.asarray(r["Boxes2D:centers"][0]), np.abs(np.asarray(r["Boxes2D:half_sizes"][0]))
                if not (np.allclose(c - hs, [-1.0, -2.25]) and np.allclose(c + hs, [1.25, 0.5])):
                    raise Violation("domain", f"domain box is {(c - hs).tolist()} to {(c + hs).tolist()}")
                continue
            if static or r.get("step") is None:
                raise Violation("no-time", f"{ent} was logged without a step")
            i = by.get(r["step"])
            if i is None or i not in ev:
                raise Violation("wrong-step", f"{ent} was logged at step {r['step']}, which no callback had")
            e = trace["emit"][i]
            t = r["sim_time"]
            t = (t - t.__class__(0)).total_seconds() if not hasattr(t, "timestamp") else t.timestamp()
            if not abs(t - e["t"]) < 2e-9 + 1e-9 * abs(e["t"]) and not abs(t - e["t"]) < 1.1e-6:
                raise Violation("wrong-time", f"{ent} at step {r['step']} has time {t!r}, the callback had {e['t']!r}")
            why = check_row(np, m, trace, r, states[i], what, sdf_pos(i) if what == "sdf" else None)
            if why:
                raise Violation("wrong-data", f"{ent} at step {r['step']}: {why}")
            seen.add(i)
            res.count("rows-read")
        if what != "domain" and seen != set(ev):
            raise Violation("frame-lost", f"{ent} lacks steps {[trace['emit'][i]['step'] for i in sorted(set(ev) - seen)]}")


def check_row(np, m, trace, r, state, what, pos):
    if what == "sdf":
        d = trace["sdf"]
        if d == 2:
            p = np.concatenate([np.asarray(s) for s in r["LineStrips2D:strips"]]) * [1, -1]
        else:
            p = np.asarray(r["Mesh3D:vertex_positions"])
        s = 1.1 * max(b for _, b in trace["win"][:d]) / (24 if d == 2 else 16)
        err = np.abs(np.linalg.norm(p - pos, axis=1) - 0.4).max()
        if len(p) < 6 or not err < s * s / 0.4:
            return f"surface point {err:.3g} off the SDF's zero level"
        span = p.max(0) - p.min(0)
        if not np.all(span > 0.75 - 4 * s * s / 0.4):
            return f"surface spans {span.tolist()}, radius 0.4"
        if d == 3:
            nrm = np.asarray(r["Mesh3D:vertex_normals"])
            q = (p - pos) / np.linalg.norm(p - pos, axis=1)[:, None]
            a = np.abs((nrm * q).sum(1)) / np.linalg.norm(nrm, axis=1)
            if not a.min() > 0.8:
                return f"a surface normal is {np.degrees(np.arccos(min(1.0, float(a.min())))):.0f} degrees off"
        return None
    mp = state[what]
    x = np.asarray(mp.position_stack)
    dim = x.shape[1]
    kind = f"Points{dim}D:"
    p = np.asarray(r[kind + "positions"], np.float32)
    w = x * np.asarray([1, -1], np.float32) if dim == 2 else x
    if p.shape != w.shape or not np.array_equal(p, w):
        return "positions differ from that step's state"
    v0 = np.asarray(mp.volume0_stack, np.float64)
    rad = (np.sqrt(v0 / np.pi) if dim == 2 else np.cbrt(3 * v0 / (4 * np.pi))) * trace["scale"]
    if not np.allclose(np.asarray(r[kind + "radii"]), rad, rtol=1e-5):
        return "radii differ from that step's state"
    got = np.asarray(r[kind + "colors"], np.uint32)
    if len(got) == 1 and len(x) > 1:
        got = np.repeat(got, len(x))
    got = np.stack([(got >> 24) & 255, (got >> 16) & 255, (got >> 8) & 255], 1).astype(int)
    if trace["color"]:
        c = np.tile(trace["color"], (len(x), 1))
    else:
        q = getattr(mp, trace["prop"], None)
        if q is None:
            c = np.full((len(x), 3), 200)
        else:
            q = np.asarray(q, np.float64)
            if q.ndim > 1:
                q = np.sqrt((q.reshape(len(q), -1) ** 2).sum(1))
            lo, hi = trace["vlim"] or (q.min(), q.max())
            z = (q - lo) / (hi - lo) if hi - lo >= 1e-6 else np.zeros(len(q))
            cm = m.plt.get_cmap("turbo")
            c = np.asarray(cm(z))[:, :3] * 255
            step = np.abs(np.diff(np.asarray(cm(np.linspace(0, 1, 256)))[:, :3] * 255, axis=0)).max() + 1.5
            if got.shape != c.shape or np.abs(got - c).max() > step:
                return f"colours differ from the property of that step"
            return None
    if got.shape != c.shape or np.abs(got - c).max() > 1:
        return "colours differ from what was asked for"
    return None
