"""C03: checkpoint round trip is exact."""
import errno
import os
import random
import shutil

from .. import compare, storage
from ..engine import Violation

ID, LEVEL = "C03", "exploration"
TECHNIQUE = "deterministic simulation: seeded save/load histories against a reference model, with read faults and damaged files"
LEVEL_NOTE = ("Seeded search over histories, configurations and read faults; every load is compared leaf by leaf, bit by bit, with an in-memory "
              "reference of what was saved. Silent corruption of stored bits is outside the property (the format has no checksum).")
GROUP, CHUNK = 1, 20
QUICK, THOROUGH = 400, 12000
RULE = ("each run is one seeded history of saves and loads over several run directories, two configurations (all laws, schemes, forces, "
        "colliders), several recorders per directory, arbitrary step numbers, with read faults and truncated or missing files on some loads; "
        "non-trivial if at least two different contents were loaded; distinct by event-log digest")
STATE_MEASURE = "hash of (load outcome, leaf structure, fault)"
REAL = ["hydraxmpm.common.sim_io", "equinox/numpy serialisation", "builder, states, laws, solvers, jitted step (content)", "kernel tmp file system"]
STUB = ["failing reads (simdisk system-call interposition)", "wall clock (datetime.now)"]
ASSUMPTIONS = ["skeletons come from the same set-up code as the saved objects"]


def make_ctx():
    return storage.Ctx()


def generate(seed, k, tier):
    rng = random.Random(seed)
    crng = random.Random(f"cfg3:{k // 20}")
    cfgs = [crng.randrange(storage.NCFG), crng.randrange(storage.NCFG)]
    # one configuration per directory
    dirs = rng.sample(["run", "run2", "run_3", "a/b/c", "a/b", "rerun", "run.x"], rng.randint(1, 3))
    dcfg = {d: rng.randrange(2) for d in dirs}
    ev = []
    for d in dirs:
        ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30)})
    pool = [0, 1, 2, 5, 9, 10, 11, 99, 100, 1000, 9999, 10000, 12345, 99999, 100000, 100001, 123456, 1234567, 2147483647]
    steps = rng.sample(pool, rng.randint(2, 6))
    if rng.random() < 0.4:      # decimal look-alikes
        b = rng.choice([1, 12, 123])
        steps += [b, b * 10, b * 100, b * 1000, b * 100000]
    n = rng.randint(4, 18 if tier == "quick" else 40)
    for _ in range(n):
        d = rng.choice(dirs)
        r = rng.random()
        if r < 0.5:
            ev.append({"op": "save", "dir": d, "step": rng.choice(steps), "c": rng.randrange(1 << 30), "v": rng.random() < 0.2,
                       "mode": rng.choice(["fill", "fill", "fill", "real", "step"]), "r": rng.randrange(2), "np": rng.random() < 0.3})
        elif r < 0.6:
            ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30), "r": rng.randrange(2)})
        elif r < 0.65:
            ev.append({"op": "reopen", "dir": d, "r": rng.randrange(2)})
        else:
            e = {"op": "load", "dir": d, "step": rng.choice(steps), "st": rng.choice(["int", "int", "np", "jnp"])}
            q = rng.random()
            if q < 0.3:
                kinds = rng.choice(["short", "errno", "eintr", "mix"])
                at = sorted(rng.sample(range(12), rng.randint(1, 5)))
                e["rf"] = [[i, "short", rng.choice([1, 3, 64, 100, 1000])] if kinds == "short" or (kinds == "mix" and rng.random() < 0.6)
                           else [i, "errno", errno.EINTR if kinds == "eintr" else errno.EIO] for i in at]
            elif q < 0.5:
                e["damage"] = rng.choice(["trunc", "trunc", "trunc", "empty", "gone", "cfg-trunc", "cfg-gone"])
                e["frac"] = rng.random()
            ev.append(e)
    return {"cfgs": cfgs, "dcfg": dcfg, "events": ev}


def shrink(trace):
    ev = trace["events"]
    for i, e in enumerate(ev):
        for key in ("rf", "damage"):
            if e.get(key):
                yield dict(trace, events=ev[:i] + [{a: b for a, b in e.items() if a != key}] + ev[i + 1:])
        if e.get("mode") not in (None, "fill"):
            yield dict(trace, events=ev[:i] + [dict(e, mode="fill")] + ev[i + 1:])
        if e.get("r"):
            yield dict(trace, events=ev[:i] + [dict(e, r=0)] + ev[i + 1:])
    if trace["cfgs"] != [0, 0]:
        yield dict(trace, cfgs=[0, 0])


def sample(trace):
    return {"cfgs": trace["cfgs"], "dcfg": trace["dcfg"], "events": trace["events"][:12]}


def stepped(ctx, cfg, n):
    """The state n real steps on, as the jitted solver returns it."""
    import jax
    key = ("step", cfg)
    if not hasattr(ctx, "steppers"):
        ctx.steppers = {}
    if key not in ctx.steppers:
        if len(ctx.steppers) > 8:
            ctx.steppers.clear()
        solver, st = ctx.skeletons(cfg)
        ctx.steppers[key] = [jax.jit(lambda s: solver(s)), [st]]
    f, hist = ctx.steppers[key]
    while len(hist) <= n:
        hist.append(f(hist[-1]))
    return hist[n]


def execute(trace, ctx, res):
    import jax.numpy as jnp
    import numpy as np
    import equinox as eqx
    sd, SD = ctx.sd, ctx.sdmod
    ctx.reset_disk()
    root = ctx.root
    storage.FakeDatetime.now_value = 0.0
    cfg_of = {d: trace["cfgs"][i] for d, i in trace["dcfg"].items()}
    rec = {}
    want_state, want_solver = {}, {}
    loaded = set()

    def path(d):
        return os.path.join(root, d)

    def recorder(d, r, fresh=False):
        if fresh or (d, r) not in rec:
            if r == 0:
                rec[d, r] = ctx.sim_io.SimIO(output_dir=path(d), overwrite=False)
            else:   # the same directory, named relative to a script
                rec[d, r] = ctx.sim_io.SimIO(output_dir=d, relative_dir=os.path.join(root, "script.py"), overwrite=False)
        return rec[d, r]

    def content(d, e):
        cfg = cfg_of[d]
        st = ctx.skeletons(cfg)[1]
        if e["mode"] == "fill":
            t = storage.fill(st, e["c"], e["step"])
        else:
            t = st if e["mode"] == "real" else stepped(ctx, cfg, 1 + e["c"] % 2)
            s = t.step
            t = eqx.tree_at(lambda q: q.step, t, jnp.asarray(e["step"], jnp.int32) if hasattr(s, "dtype") else e["step"])
        if e.get("np"):   # what an output callback receives
            import jax
            t = jax.tree_util.tree_map(lambda x: np.asarray(x) if compare.is_arr(x) else x, t)
        return t

    def freeze(t):
        return [(p, k) for p, k in compare.np_tree(t)], t

    for n, e in enumerate(trace["events"]):
        d, op = e["dir"], e["op"]
        cfg = cfg_of[d]
        storage.FakeDatetime.now_value += 7.0
        res.sim_time += 7.0
        res.count("op:" + op)
        if op == "reopen":
            recorder(d, e["r"], True)
        elif op == "solver":
            t = storage.fill(ctx.skeletons(cfg)[0], e["c"])
            before = compare.digest(t)
            recorder(d, e.get("r", 0)).save_solver(t)
            if compare.digest(t) != before:
                raise Violation("argument-changed", f"event {n}: saving changed the solver it was given")
            want_solver[d] = t
        elif op == "save":
            t = content(d, e)
            before = compare.digest(t)
            recorder(d, e["r"]).save_step(t, verbose=e["v"])
            if compare.digest(t) != before:
                raise Violation("argument-changed", f"event {n}: saving changed the state it was given")
            want_state[d, e["step"]] = t
        else:
            sk, st = ctx.skeletons(cfg)
            where = path(d)
            step = e["step"]
            arg = {"int": int, "np": np.int64, "jnp": lambda v: jnp.asarray(v, jnp.int32)}[e["st"]](step)
            dmg = e.get("damage")
            if dmg:
                where = os.path.join(root, "damaged")
                shutil.rmtree(where, ignore_errors=True)
                if not os.path.isdir(path(d)):
                    continue
                shutil.copytree(path(d), where)
                names = sorted(os.listdir(where))
                tgt = [x for x in names if ("solver" in x or "config" in x) == dmg.startswith("cfg") and x.endswith(".eqx")]
                tgt = [x for x in tgt if dmg.startswith("cfg") or _int_in(x) == step]
                for x in tgt:
                    p = os.path.join(where, x)
                    if dmg.endswith("gone"):
                        os.unlink(p)
                    else:
                        sz = os.path.getsize(p)
                        os.truncate(p, 0 if dmg == "empty" else min(sz - 1, int(sz * e["frac"])))
                res.count("fault:" + dmg, len(tgt))
                if not tgt:
                    dmg = None
            img = SD.real_image(where) if os.path.isdir(where) else None
            sd.reset(rfaults=[(i, SD.F_SHORT if k == "short" else SD.F_ERRNO, a) for i, k, a in e.get("rf", [])])
            err = got = None
            try:
                with sd.inside():
                    got = ctx.sim_io.load_simulation(where, sk, st, arg)
            except Exception as x:
                err = x
            hits = sd.c.fired[8] + sd.c.fired[9]
            res.count("fault:read-error", sd.c.fired[8])
            res.count("fault:short-read", sd.c.fired[9])
            sd.reset()
            ws, wt = want_solver.get(d), want_state.get((d, step))
            res.note(n, "load", d, step, type(err).__name__)
            res.state("load", type(err).__name__, dmg, hits, cfg, step)
            what = f"event {n}: loading {d} step {step}"
            if img is not None and SD.real_image(where) != img:
                raise Violation("load-writes", f"{what} changed the directory")
            if err is not None:
                if ws is not None and wt is not None and not dmg and not hits:
                    raise Violation("does-not-load", f"{what}: {type(err).__name__}: {str(err)[:300]}")
                res.count("loads-refused")
                continue
            res.count("loads")
            if ws is None or wt is None:
                raise Violation("load-invents", f"{what} returned although it was never saved")
            if dmg and dmg.endswith("gone"):
                raise Violation("load-invents", f"{what} returned although its file is missing")
            x = compare.diff(wt, got[1], loose_scalars=True)
            if x:
                raise Violation("state-differs", f"{what}: {x}" + (f" (damaged: {dmg})" if dmg else "") + (" (disturbed read)" if hits else ""))
            x = compare.diff(ws, got[0], loose_scalars=True)
            if x:
                raise Violation("solver-differs", f"{what}: {x}" + (f" (damaged: {dmg})" if dmg else "") + (" (disturbed read)" if hits else ""))
            loaded.add((d, step, compare.digest(got[1])))
            res.note(compare.digest(got[1]))
    # everything saved is still there
    for (d, step), wt in sorted(want_state.items(), key=lambda kv: (kv[0][0], kv[0][1])):
        sk, st = ctx.skeletons(cfg_of[d])
        if d not in want_solver:
            continue
        try:
            gs, gt = ctx.sim_io.load_simulation(path(d), sk, st, step)
        except Exception as x:
            raise Violation("does-not-load", f"at the end: {d} step {step}: {type(x).__name__}: {str(x)[:300]}")
        x = compare.diff(wt, gt, loose_scalars=True) or compare.diff(want_solver[d], gs, loose_scalars=True)
        if x:
            raise Violation("state-differs", f"at the end: {d} step {step}: {x}")
        loaded.add((d, step, compare.digest(gt)))
        res.count("loads")
        res.state("end", cfg_of[d], step, compare.digest(gt)[:6])
    res.nontrivial = len(loaded) >= 2


def _int_in(name):
    import re
    m = re.findall(r"\d+", name)
    return int(m[-1]) if m else None
