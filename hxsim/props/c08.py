"""C08: the simulation clock counts every step once (and the AFLIP speed limit uses the step's dt)."""
import random

from .. import simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C08", "exploration"
TECHNIQUE = "deterministic simulation: seeded step/dt/resume/rollback histories checked against a reference clock after every step"
LEVEL_NOTE = ("Seeded search over set-ups and clock histories; the reference clock sums the dt values in double precision and allows only "
              "single-precision round-off per step.")
GROUP, CHUNK = 12, 12
QUICK, THOROUGH = 360, 9000
RULE = ("each run is one seeded set-up and one history of steps with dt jumps (down to 1e-6 and up to ten times the stable step), "
        "checkpoint resumes and rollbacks; non-trivial if dt changed at least once; distinct by event-log digest")
STATE_MEASURE = "hash of (step counter, time rounded to 4 digits) after every step"
REAL = ["builder, solvers, forces, colliders, laws", "SimIO / load_simulation", "JAX/XLA CPU"]
STUB = ["none needed: dt is the only clock the solver reads, and the scheduler sets it"]
ASSUMPTIONS = ["times below 1e4 and fewer than 1e5 steps, so that single precision resolves them"]


def make_ctx():
    return {"cache": simrun.Cache(1)}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    spec = spec_mod.gen_spec(g, max_bodies=2)
    if g.random() < 0.4:
        spec["build_kw"] = {"time": g.choice([0.0, 0.5, 12.0]), "step": g.choice([0, 1, 41, 100000])}
    fast = g.random() < 0.5        # a set-up that meets the speed limit
    if fast and g.random() < 0.7 and spec["solver"]["scheme"] == "usl":
        spec["solver"] = spec_mod.gen_solver(g, ["usl_aflip"])
    rng = random.Random(seed)
    ev = simrun.gen_history(rng, 30 if tier == "quick" else 120, fs=(1.0, 0.5, 0.1, 0.01, 1e-4, 1e-6) + ((3.0, 10.0) if fast else ()), change=0.4)
    return {"spec": spec, "init": rng.randrange(1 << 30), "vamp": rng.choice([2.0, 20.0, 200.0]) if fast else 0.3, "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "build": trace["spec"].get("build_kw"), "vamp": trace["vamp"], "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    for key in ("forces", "sdfs"):
        for i in range(len(sp[key])):
            yield dict(trace, spec=dict(sp, **{key: sp[key][:i] + sp[key][i + 1:]}))
    for i, e in enumerate(trace["events"]):
        if e.get("n", 1) > 1:
            yield dict(trace, events=trace["events"][:i] + [dict(e, n=1)] + trace["events"][i + 1:])


def execute(trace, ctx, res):
    import numpy as np
    spec = trace["spec"]
    c = ctx["cache"].get(spec, lambda: simrun.Compiled(spec))
    kw = spec.get("build_kw", {})
    t0, s0 = kw.get("time", 0.0), kw.get("step", 0)
    st = c.state0
    if int(st.step) != s0 or abs(float(st.time) - t0) > 1e-6 * abs(t0):
        raise Violation("start", f"built with time {t0}, step {s0} but starts at time {float(st.time)}, step {int(st.step)}")
    cfl = None
    if spec["solver"]["scheme"].lower() == "usl_aflip":
        cfl = spec["solver"]["params"].get("cfl_limit", 0.5)
    eps = float(np.finfo(np.float32).eps)
    dts = set()

    def on_step(n, prev, new, led):
        t, s, tol = led
        dt = float(prev.dt)
        dts.add(dt)
        t, s = t + dt, s + 1
        tol += eps * (abs(t) + abs(dt))
        if int(new.step) != s:
            raise Violation("step-counter", f"event {n}: after {s - s0} steps from {s0} the counter is {int(new.step)}")
        if not abs(float(new.time) - t) <= tol + 1e-30:
            raise Violation("time", f"event {n}: time {float(new.time)!r} after step {s}, the dt values used sum to {t!r}")
        if float(np.float32(new.dt)) != float(np.float32(dt)):
            raise Violation("dt-changed", f"event {n}: dt was {dt!r} and is {float(new.dt)!r} after step {s}")
        if cfl is not None:
            for b, j in c.ix["couple"].items():
                bd = spec["bodies"][b]
                if bd.get("rigid"):
                    continue
                lim = cfl * spec["grids"][bd["g"]]["h"] / dt
                v = np.linalg.norm(np.asarray(new.world.material_points[c.ix["body"][b]].velocity_stack, np.float64), axis=1)
                v = v[np.isfinite(v)]
                if len(v) and v.max() > lim * (1 + 1e-5):
                    raise Violation("speed-limit", f"event {n}: body {b} leaves step {s} at {v.max():.6g}, the limit at dt {dt:.3g} is {lim:.6g}")
                if len(v) and v.max() > lim * 0.999:
                    res.count("speed-limit-reached")
        res.note(s, float(new.time))
        res.state(s, round(float(new.time), 4))
        return (t, s, tol)

    h = simrun.History(c, res, simrun.run_dir("c08"))
    try:
        init = simrun.perturb(st, trace["init"], spec["dim"], vamp=trace["vamp"])
        h.run(init, (t0, s0, eps * abs(t0)), trace["events"], spec_mod.safe_dt(spec), on_step)
    finally:
        h.close()
    res.nontrivial = len(dts) > 1
