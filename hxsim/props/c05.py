"""C05: output does not depend on delivery order."""
import os
import random

from .. import compare, simrun, spec as spec_mod, storage, threads
from ..engine import Violation
from .c13 import expect_particles, matches

ID, LEVEL = "C05", "exploration"
TECHNIQUE = "deterministic simulation: output callbacks of jitted runs queued at the jax.debug.callback seam and delivered late, reordered, duplicated and line-interleaved by a seeded scheduler"
LEVEL_NOTE = ("Seeded search over delivery orders and thread interleavings (a switch between any two lines of library code; calls into C, VTK and numpy are atomic). "
              "The states delivered are those a jitted simulation loop hands to its callback.")
GROUP, CHUNK = 25, 25
QUICK, THOROUGH = 500, 10000
RULE = ("each run is one jitted simulation of one or two bodies (one or two ensemble members) whose output callbacks are captured and then delivered by the scheduler in a "
        "seeded order with delays and duplicates, one at a time or in up to six threads interleaved line by line; non-trivial if the order differs from "
        "emission order or threads overlapped; distinct by event-log digest (which contains the schedule)")
STATE_MEASURE = "hash of (deliveries finished, files present) when a delivery ends"
REAL = ["hydraxmpm.common.sim_io (SimIO)", "hydraxmpm.common.vtk_io (VTKVisualizer)", "builder and solvers under jit, lax.scan, lax.cond and jax.debug.callback", "pyvista / VTK", "kernel tmp file system"]
STUB = ["delivery of debug callbacks (queued and handed out by the scheduler)", "thread scheduler (settrace)"]
ASSUMPTIONS = ["deliveries of one step carry the same state"]
XLA = "--xla_backend_optimization_level=0"
PROPS = ["velocity_stack", "mass_stack", "pressure_stack", "stress_stack", None]


def make_ctx():
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    threads.patch()
    threads.patch_library()
    return {"cache": simrun.Cache(1)}


def generate(seed, k, tier):
    g = simrun.group_rng(seed, k, GROUP)
    spec = spec_mod.gen_spec(g, max_bodies=2, rigid=False)
    spec["build_kw"] = {"step": g.choice([0, 0, 7, 95, 99997]), "time": g.choice([0.0, 0.25])}
    every = g.choice([1, 1, 2, 3])
    rng = random.Random(seed)
    members = rng.choice([1, 1, 2])
    n = 6
    per = []        # deliveries: (member, emission index, sink)
    sinks = rng.choice([["save"], ["save", "frame"], ["frame"], ["save", "frame"]])
    for m in range(members):
        for i in range((n + every - 1) // every + 1):
            for s in sinks:
                per += [{"m": m, "i": i, "s": s}] * rng.choice([1, 1, 1, 2, 3])
    how = rng.choice(["late", "shuffle", "shuffle", "swap", "threads", "threads", "threads"])
    if how in ("shuffle", "threads"):
        rng.shuffle(per)
    elif how == "swap":
        for _ in range(rng.randint(1, 4)):
            j = rng.randrange(len(per))
            per.insert(rng.randrange(len(per)), per.pop(j))
    if how == "threads" and rng.random() < 0.5:         # deliveries of the same thing meet
        per.sort(key=lambda d: (d["i"], d["s"], d["m"]))
    per = per[:rng.choice([6, 12, 24])]
    return {"spec": spec, "every": every, "n": n, "members": members, "how": how, "init": rng.randrange(1 << 30), "prop": rng.choice(PROPS),
            "width": rng.choice([2, 2, 3, 6]), "policy": rng.choice(["random", "random", "pct", "meet", "meet"]), "p": rng.choice([0.05, 0.2, 0.5, 0.9]),
            "sched": rng.randrange(1 << 30), "one": rng.random() < 0.5, "events": per}


def sample(trace):
    return {k: v for k, v in trace.items() if k not in ("spec", "events")} | {"setup": spec_mod.describe(trace["spec"]), "deliveries": trace["events"][:15]}


def shrink(trace):
    for w in (1, 2):
        if trace["width"] > w:
            yield dict(trace, width=w)
    if trace["how"] == "threads":
        yield dict(trace, how="shuffle")
    for s in range(3):
        if trace["sched"] != s:
            yield dict(trace, sched=s)


def execute(trace, ctx, res):
    import equinox as eqx
    import jax
    import numpy as np
    import pyvista as pv
    from hydraxmpm.common import sim_io, vtk_io
    spec, n, every = trace["spec"], trace["n"], trace["every"]
    kw = spec["build_kw"]

    def make():
        c = simrun.Compiled(spec, dt=spec_mod.safe_dt(spec) * 0.5)
        c.emitted = []

        def loop(solver, s, member):
            def body(s, _):
                s = solver(s)
                jax.lax.cond((s.step - kw["step"]) % every == 0, lambda q: jax.debug.callback(lambda *a: c.emitted.append(a), q, member), lambda q: None, s)
                return s, None
            jax.debug.callback(lambda *a: c.emitted.append(a), s, member)
            return jax.lax.scan(body, s, None, length=n)[0]
        c.loop = eqx.filter_jit(loop)
        return c
    c = ctx["cache"].get([spec, every], make)

    # the run: callbacks are only recorded
    c.emitted.clear()
    for m in range(trace["members"]):
        s = simrun.traced(simrun.perturb(c.state0, trace["init"] + m, spec["dim"]))
        jax.block_until_ready(c.loop(c.solver, s, jax.numpy.int32(m)).time)
    jax.effects_barrier()
    by = {}
    for s, m in c.emitted:
        by.setdefault(int(m), []).append(s)
    for m, l in by.items():
        l.sort(key=lambda s: int(s.step))
        want = [kw["step"]] + [kw["step"] + i for i in range(1, n + 1) if i % every == 0]
        got = [int(s.step) for s in l]
        if sorted(got) != want:
            raise Violation("emission", f"member {m}: output was asked for at steps {want} and came for {got}")
    res.sim_time += float(c.state0.dt) * n * trace["members"]
    res.count("steps", n * trace["members"])
    ev = [e for e in trace["events"] if e["m"] in by and e["i"] < len(by[e["m"]])]
    if trace["how"] == "late":
        ev.sort(key=lambda e: e["i"])

    # the deliveries
    base = simrun.run_dir("c05")
    try:
        recs, vis = {}, vtk_io.VTKVisualizer(output_dir=os.path.join(base, "vtk"))
        for m in range(trace["members"]):
            recs[m] = sim_io.SimIO(output_dir=os.path.join(base, f"run_{m}"), overwrite=True)
            recs[m].save_solver(c.solver)
        want = {}
        order = []

        def deliver(e):
            s = by[e["m"]][e["i"]]
            if e["s"] == "save":
                r = recs[e["m"]] if trace["one"] else sim_io.SimIO(output_dir=os.path.join(base, f"run_{e['m']}"), overwrite=False)
                r.save_step(s, verbose=False)
            else:
                for b, mp in enumerate(s.world.material_points):
                    vis.log_particles(mp, label=f"sim_{e['m']}/body_{b}", property_name=trace["prop"], time=s.time, step=s.step)

        for e in ev:
            s = by[e["m"]][e["i"]]
            if e["s"] == "save":
                want[os.path.join(f"run_{e['m']}", f"state_{int(s.step):05d}.eqx")] = (e["m"], s)
            else:
                for b, mp in enumerate(s.world.material_points):
                    want[os.path.join("vtk", f"sim_{e['m']}", f"body_{b}", f"step_{int(s.step):05d}.vtp")] = \
                        expect_particles(np, mp, {"scale": 1.0, "prop": trace["prop"], "t": float(s.time)})
        if trace["how"] != "threads":
            for e in ev:
                deliver(e)
                order.append((e["m"], e["i"], e["s"]))
                res.state(len(order))
        else:
            sch = threads.Sched(random.Random(trace["sched"]), p=trace["p"], policy=trace["policy"], changes=6, horizon=60 * max(1, len(ev)))
            pend = list(ev)
            live = []

            def worker():
                while pend:
                    e = pend.pop(0)
                    deliver(e)
                    order.append((e["m"], e["i"], e["s"]))
                    res.state(len(order), len(os.listdir(base)))
            for w in range(trace["width"]):
                live.append(sch.add(f"w{w}", worker))
            try:
                sch.run()
            except threads.Stuck as x:
                raise Violation("stuck", x)
            for t in sch.tasks:
                if t.error is not None:
                    if isinstance(t.error, Exception):
                        raise t.error
                    raise RuntimeError(repr(t.error))
            res.count("thread-switches", sch.switches)
            res.count("switch-points", sch.points)
            res.count("lock-waits", sch.blocked)
            res.count("stalls", sch.stalls)
            res.note(sch.trace_log)
        res.count("deliveries", len(ev))
        seen = set()
        last = -1
        for e in ev:
            k = (e["m"], e["i"], e["s"])
            res.count("fault:duplicated", int(k in seen))
            res.count("fault:out-of-order", int(k not in seen and e["i"] < last))
            last = max(last, e["i"])
            seen.add(k)
        res.note(order)
        res.nontrivial = trace["how"] == "threads" or [e["i"] for e in ev] != sorted(e["i"] for e in ev)

        # the run directory
        found = set()
        for d, _, fs in os.walk(base):
            for f in fs:
                found.add(os.path.relpath(os.path.join(d, f), base))
        found -= {os.path.join(f"run_{m}", x) for m in range(trace["members"]) for x in ("solver_config.eqx", "metadata.json")}
        lost, extra = sorted(set(want) - found), sorted(found - set(want))
        if lost:
            raise Violation("output-lost", f"{len(ev)} deliveries ({trace['how']}): {lost[0]} is missing" + (f" while {extra[0]} is there" if extra else ""))
        if extra:
            raise Violation("output-extra", f"{len(ev)} deliveries ({trace['how']}): nothing was delivered for {extra[0]}")
        for f in sorted(want):
            w = want[f]
            if f.endswith(".vtp"):
                why = matches(np, pv, os.path.join(base, f), w)
                res.count("frames-read")
            else:
                m, s = w
                try:
                    _, got = sim_io.load_simulation(os.path.join(base, f"run_{m}"), c.solver, simrun.traced(c.state0), int(s.step))
                    why = compare.diff(s, got, loose_scalars=True)
                except Exception as x:
                    why = f"does not load ({type(x).__name__}: {str(x)[:150]})"
                res.count("loads")
            if why:
                raise Violation("output-mixed", f"{len(ev)} deliveries ({trace['how']}): {f}: {why}")
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)
