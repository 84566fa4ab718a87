"""C06: simulations in one process do not disturb each other."""
import logging
import os
import random
import shutil

from .. import compare, env, simrun, spec as spec_mod, threads
from ..engine import Violation

ID, LEVEL = "C06", "exploration"
TECHNIQUE = "deterministic simulation: seeded interleaving of several simulations (events and library lines), bitwise comparison with each one run alone in a fresh library"
LEVEL_NOTE = ("Seeded search over set-ups, event scripts and thread interleavings (a switch between any two lines of library code, also while a step is being traced); "
              "every simulation must log the same state digests and leave the same files as when run alone after a fresh import.")
GROUP, CHUNK = 10, 10
QUICK, THOROUGH = 80, 4000
DET = 2
RECYCLE = 40
RULE = ("each run is two or three simulations, each with its own event script (build, step jitted or op by op, change of dt, save, load, frame export, rollback, replay of "
        "a kept old state), run once alone in a fresh library each and once together under the scheduler in another fresh library; non-trivial if the schedule "
        "switched between simulations after both were started; distinct by event-log digest (which contains the schedule)")
STATE_MEASURE = "hash of (events finished per simulation) at every event"
REAL = ["builder, solvers, forces, colliders, laws, states", "SimIO / load_simulation and VTK frame export on the real file system", "JAX tracing, equinox, XLA CPU"]
STUB = ["thread scheduler (settrace; one thread runs at a time)", "process start (library modules purged and imported again)"]
ASSUMPTIONS = ["XLA compiles the same program to the same code (compiled programs are reused through JAX's persistent cache)"]
OPS = ["step"] * 8 + ["estep", "dt", "save", "load", "frame", "rollback", "replay", "replay", "rejit", "distance"]


def make_ctx():
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import jax
    d = os.path.join(os.environ.get("HXSIM_SCRATCH") or env.scratch(), "xla")
    os.makedirs(d, exist_ok=True)
    jax.config.update("jax_compilation_cache_dir", d)
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    threads.patch()
    return {"n": 0}


def gen_script(rng, long, eager):
    ev = [{"op": "build"}]
    for _ in range(rng.randint(4, 14 if not long else 40)):
        op = rng.choice(OPS)
        if op == "estep" and not eager:
            op = "step"
        e = {"op": op}
        if op in ("rollback", "replay", "load"):
            e["back"] = rng.choice([0, 1, 1, 2, 4])
        if op == "dt":
            e["f"] = rng.choice([1.0, 0.5, 0.2, 0.01])
        ev.append(e)
    return ev


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    light = k % 5 not in (0, 2)
    if light:
        g = random.Random(f"{seed.rsplit(':', 1)[0]}:light{k // GROUP}:{k % 5 == 4}")
    base = spec_mod.gen_spec(g)
    specs = [base]
    for _ in range(g.choice([1, 1, 2])):
        r = g.random()
        if r < 0.35:
            s = spec_mod.gen_spec(g)
        elif r < 0.7:      # same shapes, other numbers
            import copy
            s = copy.deepcopy(base)
            for grid in s["grids"]:
                grid["end"] = [e + 0.2 for e in grid["end"]] if g.random() < 0.5 else grid["end"]
                grid["origin"] = [o - 0.05 for o in grid["origin"]] if g.random() < 0.5 else grid["origin"]
            for b in s["bodies"]:
                b["seed"] = g.randrange(1 << 30)
                if not b.get("rigid"):
                    b["vel"] = [g.uniform(-0.5, 0.5) for _ in b["vel"]]
                    b["law"] = spec_mod.gen_law(g, [b["law"]["type"]])
            for f in s["forces"]:
                if f["type"] == "gravity":
                    f["g"] = [x * 0.5 for x in f["g"]]
            for q in s["sdfs"]:
                if q["type"] != "domain" and g.random() < 0.7:
                    q["vel"] = [g.uniform(-0.3, 0.3) for _ in range(s["dim"])]
        else:              # the very same set-up
            s = base
        specs.append(s)
    rng = random.Random(seed)
    eager = g.random() < 0.12
    how = rng.choice(["events", "lines", "lines"])
    scripts = [gen_script(g, tier != "quick", eager) for _ in specs]
    if light:          # building and saving only: cheap, so switched much more densely
        how = rng.choice(["events"] + ["lines"] * 5)
        scripts = [[{"op": "build"}] + [{"op": o, "back": 0} for o in
                   g.choices(["rebuild"] * 5 + ["save", "load", "frame", "distance"], k=g.randint(8, 16))] for _ in specs]
    return {"specs": specs, "scripts": scripts, "orders": [g.choice([None, g.randrange(1 << 30), g.randrange(1 << 30)]) for _ in specs], "bp": rng.choice([0.02, 0.2, 0.6, 0.9]) if light else rng.choice([0.003, 0.02, 0.1, 0.5]),
            "omits": [g.choice([None, g.randrange(1 << 30), g.randrange(1 << 30)]) for _ in specs],
            "init": [g.randrange(1 << 30) for _ in specs] if g.random() < 0.7 else [g.randrange(1 << 30)] * len(specs),
            "how": how, "p": rng.choice([0.003, 0.02, 0.1]), "ep": rng.choice([0.3, 0.8, 1.0]),
            "policy": rng.choice(["random", "meet", "meet", "pct"]), "sched": rng.randrange(1 << 30), "dirs": rng.choice(["nested", "siblings"])}


def sample(trace):
    return {"setups": [spec_mod.describe(s) for s in trace["specs"]], "scripts": [[e["op"] for e in s] for s in trace["scripts"]],
            "how": trace["how"], "p": trace["p"], "policy": trace["policy"], "sched": trace["sched"]}


def shrink(trace):
    if trace["how"] == "lines":
        yield dict(trace, how="events", policy="random")
    n = len(trace["specs"])
    if n > 2:
        for i in range(n):
            yield dict(trace, **{k: trace[k][:i] + trace[k][i + 1:] for k in ("specs", "scripts", "init", "orders", "omits")})
    for i, s in enumerate(trace["scripts"]):
        for a in range(1, len(s)):
            yield dict(trace, scripts=trace["scripts"][:i] + [s[:a] + s[a + 1:]] + trace["scripts"][i + 1:])
    for i, sp in enumerate(trace["specs"]):
        for key in ("forces", "sdfs", "bodies"):
            for a in range(len(sp[key])):
                if key == "bodies" and len(sp[key]) == 1:
                    continue
                yield dict(trace, specs=trace["specs"][:i] + [dict(sp, **{key: sp[key][:a] + sp[key][a + 1:]})] + trace["specs"][i + 1:])


class Sim:
    """One simulation and its event script; logs what it observes."""

    def __init__(self, trace, i, d, point, tick, dense=lambda on: None):
        spec, script, init = (trace[k][i] for k in ("specs", "scripts", "init"))
        self.order = None if trace["orders"][i] is None else spec_mod.Registration(spec).random_order(random.Random(trace["orders"][i]))
        self.dense = dense
        # arguments the library has defaults for are left out half the time
        self.omit = lambda seed=trace["omits"][i]: None if seed is None else random.Random(seed)
        self.spec, self.script, self.init, self.dir, self.point, self.tick = spec, script, init, d, point, tick
        self.log = []
        self.steps = 0
        self.time = 0.0

    def note(self, n, op, *what):
        self.log.append((n, op) + what)
        self.tick()

    def run(self):
        import equinox as eqx
        import jax.numpy as jnp
        import numpy as np
        import hydraxmpm.common.sim_io as io
        import hydraxmpm.common.vtk_io as vio
        dt0 = spec_mod.safe_dt(self.spec)
        f = 1.0
        kept, saved = [], []
        rec = vis = None

        def compiled():
            g = eqx.filter_jit(lambda solver, s: solver(s))
            return lambda solver, s: g(solver, simrun.traced(s))
        step = compiled()
        for n, e in enumerate(self.script):
            self.point()
            op = e["op"]
            if op == "rebuild":
                self.dense(True)
                solver2, st2, ix2 = spec_mod.build(self.spec, self.order, hook=lambda t: self.point(), omit=self.omit())
                self.dense(False)
                if (compare.digest(st2), compare.digest(solver2), static(solver2)) != sd + (stat,) or ix2 != ix:
                    raise Violation("disturbed", f"event {n}: assembling the same set-up again gives another simulation")
                self.note(n, op)
            elif op == "build":
                self.dense(True)
                solver, st, ix = spec_mod.build(self.spec, self.order, hook=lambda t: self.point(), omit=self.omit())
                self.dense(False)
                s = simrun.perturb(st, self.init, self.spec["dim"])
                skeleton, sd = st, (compare.digest(st), compare.digest(solver))
                stat = static(solver)
                self.note(n, op, sd, stat, sorted((k, sorted(v.items())) for k, v in ix.items()), compare.digest(s))
                kept.append((s, compare.digest(s), None, None, None))
            elif op in ("step", "estep"):
                prev = spec_mod.with_dt(s, dt0 * f)
                s = step(solver, prev) if op == "step" else solver(simrun.traced(prev))
                self.steps += 1
                self.time += dt0 * f
                d = compare.digest(s)
                kept.append((s, d, prev, op, compare.digest(prev)))
                self.note(n, op, d)
            elif op == "dt":
                f = e["f"]
            elif op == "rejit":
                step = compiled()
            elif op == "save":
                if rec is None:
                    rec = io.SimIO(output_dir=os.path.join(self.dir, "out"), overwrite=True)
                    rec.save_solver(solver)
                rec.save_step(s, verbose=False)
                saved.append((int(s.step), compare.digest(s)))
                self.note(n, op)
            elif op == "load" and saved:
                num = saved[-1 - min(e["back"], len(saved) - 1)][0]
                want = [d for m, d in saved if m == num][-1]
                so, s = io.load_simulation(os.path.join(self.dir, "out"), solver, skeleton, num)
                self.note(n, op, compare.digest(s), compare.digest(so))
            elif op == "frame":
                if vis is None:
                    vis = vio.VTKVisualizer(output_dir=os.path.join(self.dir, "vtk"))
                q = [m for m in s.world.material_points if hasattr(m, "volume0_stack")]
                for b, m in enumerate(q):
                    vis.log_particles(m, label=f"b{b}", step=int(s.step), time=float(s.time))
                self.note(n, op)
            elif op == "distance":
                pts = jnp.asarray(np.linspace(0.1, 0.9, 5 * self.spec["dim"]).reshape(5, -1), jnp.float32)
                for w, lg in zip(s.world.sdfs, solver.sdf_logics):
                    self.note(n, op, compare.digest(lg.get_signed_distance_stack(w, pts)))
            elif op == "rollback":
                s = kept[-1 - min(e["back"], len(kept) - 1)][0]
            elif op == "replay":
                _, d, prev, how, dp = kept[-1 - min(e["back"], len(kept) - 1)]
                if prev is None:
                    continue
                if compare.digest(prev) != dp:
                    raise Violation("state-modified", f"event {n}: a state that was already advanced has changed")
                d2 = compare.digest(step(solver, prev) if how == "step" else solver(simrun.traced(prev)))
                if d2 != d:
                    raise Violation("not-repeatable", f"event {n}: stepping a kept state again gives another successor")
                self.note(n, op)
        if "build" not in [e["op"] for e in self.script]:
            return
        for s, d, prev, how, dp in kept:
            if compare.digest(s) != d or (prev is not None and compare.digest(prev) != dp):
                raise Violation("state-modified", "a kept state was changed by later events")
        if (compare.digest(skeleton), compare.digest(solver)) != sd:
            raise Violation("state-modified", "the solver or initial state was changed by stepping")


def static(solver):
    """The parts of a solver that are not array data (indices, flags), without object addresses."""
    import hashlib
    import re
    import jax
    return hashlib.sha256(re.sub("0x[0-9a-f]+", "", repr(jax.tree_util.tree_structure(solver))).encode()).hexdigest()[:12]


def tree(d):
    import hashlib
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".json"):
                out[os.path.relpath(os.path.join(r, f), d)] = "present"     # holds the date
                continue
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return out


def fresh():
    import importlib
    simrun.purge_library()
    for m in ("common.builder", "common.sim_io", "common.vtk_io", "solvers.usl", "solvers.usl_asflip", "sdf.sdfcollection",
              "constitutive_laws.druckerprager", "constitutive_laws.linearelastic", "constitutive_laws.modifiedcamclay",
              "constitutive_laws.mu_i_rheology", "constitutive_laws.newtonfluid"):
        importlib.import_module("hydraxmpm." + m)
    threads.patch_library()


def execute(trace, ctx, res):
    ctx["n"] += 1
    n = len(trace["specs"])
    base = os.path.join(env.scratch(), f"c06-{os.getpid()}-{ctx['n']}")

    def dirs(tag):
        p = os.path.join(base, tag)
        if trace["dirs"] == "nested":
            return [os.path.join(p, *["run"] * (i + 1)) for i in range(n)]
        return [os.path.join(p, "run" + "_b" * i) for i in range(n)]
    try:
        alone = [reference(ctx, trace, i, dirs(f"alone{i}")) for i in range(n)]
        fresh()
        rng = random.Random(trace["sched"])
        lines = trace["how"] == "lines"
        sch = threads.Sched(rng, p=trace["p"] if lines else 0.0, policy=trace["policy"] if lines else "random", changes=40, horizon=2500 * n)
        done = [0] * n
        sims = []
        for i in range(n):
            def tick(i=i):
                done[i] += 1
                res.state(tuple(done))
            q = Sim(trace, i, dirs("shared")[i],
                    lambda: sch.point(p=trace["ep"]), tick, lambda on: sch.local_p(trace["bp"] if lines and on else None))
            sims.append(q)
            sch.add(f"s{i}", q.run)
        try:
            sch.run()
        except threads.Stuck as x:
            raise Violation("stuck", x)
        res.count("thread-switches", sch.switches)
        res.count("switch-points", sch.points)
        res.count("stalls", sch.stalls)
        res.count("held-until-passed", sch.met)
        res.count("steps", sum(q.steps for q in sims))
        res.count("fault:concurrent-simulation", n - 1)
        for q in sims:
            for l in q.log:
                res.count("event:" + l[1])
        res.sim_time = sum(q.time for q in sims)
        res.nontrivial = sch.switches >= 2 * n
        res.note(sch.trace_log if not sch.stalls else 0, [q.log for q in sims])
        for i, t in enumerate(sch.tasks):
            for a, b in zip(alone[i].log, sims[i].log):
                if a != b:
                    raise Violation("disturbed", f"simulation {i}, event {a[0]} ({a[1]}): not what it does alone")
            if t.error is not None:
                raise t.error
            if len(alone[i].log) != len(sims[i].log):      # (an error would have been raised)
                raise Violation("disturbed", f"simulation {i} logged {len(sims[i].log)} events instead of {len(alone[i].log)}")
        # nested directories of other simulations are not part of a simulation's own files
        names = {os.path.realpath(d) for d in dirs("shared")}
        for i in range(n):
            if sims_files(dirs("shared")[i], names) != alone[i].files:
                raise Violation("files-disturbed", f"simulation {i}: the files it leaves are not those it leaves alone")
    finally:
        shutil.rmtree(base, ignore_errors=True)
        del_ = ctx.setdefault("left", [0])
        del_[0] += 1
        if del_[0] % 4 == 0:       # the discarded libraries' compiled programs
            import gc
            import jax
            simrun.purge_library()
            jax.clear_caches()
            gc.collect()


class Ref:
    pass


def reference(ctx, trace, i, dirs):
    """What simulation i logs and leaves when it is run alone in a fresh library (runs of a group share it)."""
    import json
    key = json.dumps([trace[k][i] for k in ("specs", "scripts", "init", "orders", "omits")], sort_keys=True)
    c = ctx.setdefault("ref", {})
    if key not in c:
        while len(c) > 6:
            del c[next(iter(c))]
        fresh()
        q = Sim(trace, i, dirs[i], lambda: None, lambda: None)
        q.run()
        r = c[key] = Ref()
        r.log, r.files = q.log, sims_files(q.dir, {os.path.realpath(d) for d in dirs})
    return c[key]


def sims_files(d, names):
    skip = [x for x in names if x != os.path.realpath(d) and x.startswith(os.path.realpath(d) + os.sep)]
    return {f: h for f, h in tree(d).items() if not any(os.path.realpath(os.path.join(d, f)).startswith(x + os.sep) for x in skip)}
