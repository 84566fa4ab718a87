"""C04: resuming from a checkpoint changes nothing."""
import os
import random

from .. import compare, engine, simrun, spec as spec_mod
from ..engine import Violation

ID, LEVEL = "C04", "exploration"
TECHNIQUE = "deterministic simulation: seeded stop/crash/resume schedules, bitwise comparison with the uninterrupted run"
LEVEL_NOTE = ("Seeded search over set-ups, dt histories and stop points; every state after a resume must equal the uninterrupted one bit for bit. "
              "A restart is simulated by importing the library afresh, so module-level state does not survive it; assumes the XLA CPU "
              "backend compiles the same program to the same code (which the unchanged tree confirms on every run).")
GROUP, CHUNK = 10, 10
QUICK, THOROUGH = 144, 6000
RULE = ("each run is one seeded set-up (2D/3D, every scheme, shape function, law, force, collider; ten runs share one) with seeded initial "
        "conditions, a dt history and one to four stops: checkpoint, restart with a fresh library, resume, possibly from an older checkpoint; "
        "non-trivial if a step was taken after a resume and the state kept changing; distinct by event-log digest")
STATE_MEASURE = "digest of the simulation state after every step"
REAL = ["builder, solvers, forces, colliders, laws, shape functions, states", "SimIO / load_simulation on the real file system", "JAX/XLA CPU"]
STUB = ["process restart (library modules purged and imported again in the same process)", "wall clock untouched (only metadata uses it)"]
ASSUMPTIONS = ["same machine, same JAX version, single-threaded XLA before and after the restart"]


class Ctx:
    def __init__(self):
        self.cache = simrun.Cache(1)
        self.dir = os.path.join(engine.env.scratch(), "ckpt")
        self.n = 0

    def setup(self, spec, mode):
        def make():
            a = simrun.Compiled(spec, mode=mode)
            simrun.purge_library()
            b = simrun.Compiled(spec, mode=mode)
            import hydraxmpm.common.sim_io as io_b
            return a, b, io_b
        return self.cache.get([spec, mode], make)


def make_ctx():
    return Ctx()


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    spec = spec_mod.gen_spec(g)
    mode = "eager" if g.random() < 0.06 else "jit"
    rng = random.Random(seed)
    n = rng.randint(4, 30 if tier == "quick" else 80)
    if mode == "eager":
        n = rng.randint(2, 4)
    ev = []
    f = rng.choice([1.0, 1.0, 0.5, 0.1])
    for i in range(n):
        if rng.random() < 0.25:
            f = rng.choice([1.0, 0.7, 0.5, 0.3, 0.1, 0.01, 1e-4])
        ev.append({"op": "step", "f": f})
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        i = rng.randrange(0, len(ev) + 1)
        ev.insert(i, {"op": "stop", "back": rng.choice([0, 0, 0, 1, 3, 8]), "twice": rng.random() < 0.2, "solver": rng.random() < 0.3})
    return {"spec": spec, "mode": mode, "init": rng.randrange(1 << 30), "events": ev}


def sample(trace):
    return {"setup": spec_mod.describe(trace["spec"]), "init": trace["init"], "events": trace["events"][:15]}


def shrink(trace):
    sp = trace["spec"]
    for key in ("forces", "sdfs"):
        for i in range(len(sp[key])):
            yield dict(trace, spec=dict(sp, **{key: sp[key][:i] + sp[key][i + 1:]}))
    if len(sp["bodies"]) > 1:
        for i in range(len(sp["bodies"])):
            yield dict(trace, spec=dict(sp, bodies=sp["bodies"][:i] + sp["bodies"][i + 1:]))


def execute(trace, ctx, res):
    spec = trace["spec"]
    a, b, io_b = ctx.setup(spec, trace["mode"])
    ctx.n += 1
    d = f"{ctx.dir}-{os.getpid()}-{ctx.n}"
    dt0 = spec_mod.safe_dt(spec)
    # the uninterrupted run
    dts = [dt0 * e["f"] for e in trace["events"] if e["op"] == "step"]
    ref = [simrun.perturb(a.state0, trace["init"], spec["dim"])]
    for dt in dts:
        ref.append(a.step(spec_mod.with_dt(ref[-1], dt)))
    digs = [compare.digest(s) for s in ref]
    # the interrupted one
    try:
        import hydraxmpm.common.sim_io as io0
        rec = io0.SimIO(output_dir=d, overwrite=True)
        rec.save_solver(a.solver)
        run, solver = a, a.solver
        s = simrun.perturb(a.state0, trace["init"], spec["dim"])
        i = 0
        saved = set()
        stopped = 0
        after = 0
        for n, e in enumerate(trace["events"]):
            if e["op"] == "step":
                s = run.step(spec_mod.with_dt(s, dts[i]), solver)
                i += 1
                res.count("steps")
                res.sim_time += dts[i - 1]
                check(ref, i, s, n, stopped, res)
                after += bool(stopped)
                res.states.add(digs[i][:12])
                continue
            if e["solver"]:
                rec.save_solver(solver)
            rec.save_step(s, verbose=False)
            saved.add(i)
            # the process ends here; progress since an older checkpoint may be lost
            want = max([j for j in saved if j <= i - e["back"]], default=i)
            for rep in range(1 + e["twice"]):
                run = b
                solver, s = io_b.load_simulation(d, b.solver, b.state0, want)
                rec = io_b.SimIO(output_dir=d, overwrite=False)
                stopped += 1
                res.count("fault:stop-and-resume")
                if rep < e["twice"]:
                    rec.save_step(s, verbose=False)
            if want < i:
                res.count("fault:lost-progress")
            x = compare.diff(ref[want], s, loose_scalars=True)
            if x:
                raise Violation("checkpoint-differs", f"event {n}: state {want} as loaded: {x}")
            # redo the lost steps
            j = want
            while j < i:
                s = run.step(spec_mod.with_dt(s, dts[j]), solver)
                j += 1
                res.count("steps-redone")
                check(ref, j, s, n, stopped, res)
        res.note(digs)
        res.nontrivial = after > 0 and len(set(digs)) == len(digs)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def check(ref, i, s, n, stopped, res):
    x = compare.diff(ref[i], s, loose_scalars=True)
    if x:
        raise Violation("diverges" if stopped else "not-repeatable",
                        f"event {n}: step {i} after {stopped} resume(s): {x}")
