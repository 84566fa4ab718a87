"""Shared parts of the simulation properties: compiled set-ups, library generations, seeded histories."""
import importlib
import json
import random
import sys

from . import compare, env, spec as spec_mod


def purge_library():
    """Forget the library: the next import runs its modules again, as a restarted process would."""
    for n in [n for n in sys.modules if n == "hydraxmpm" or n.startswith("hydraxmpm.")]:
        del sys.modules[n]
    importlib.invalidate_caches()


def traced(state):
    """Python numbers in a state become arrays, as jax.jit does with them (and all of them strongly
    typed, so that the first step is not compiled twice)."""
    import jax
    import jax.numpy as jnp

    def f(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return jnp.asarray(x, jnp.int32 if isinstance(x, int) else jnp.float32)
        if getattr(x, "weak_type", False):
            return jnp.asarray(x, x.dtype)
        return x
    return jax.tree_util.tree_map(f, state)


class Compiled:
    """A set-up assembled by the library's builder, with a compiled step taking (solver, state)."""

    def __init__(self, spec, order=None, hook=None, dt=None, mode="jit", omit=None):
        import equinox as eqx
        self.spec = spec
        self.solver, self.state0, self.ix = spec_mod.build(spec, order, dt, hook, omit)
        f = lambda solver, s: solver(s)
        if mode == "eager":
            self.fn = f
        else:
            g = eqx.filter_jit(f)
            self.fn = lambda solver, s: g(solver, traced(s))

    def step(self, s, solver=None):
        return self.fn(self.solver if solver is None else solver, s)


class Cache:
    """Keeps the set-ups of the current group compiled."""

    def __init__(self, n=2):
        self.n = n
        self.d = {}

    def get(self, key, make):
        k = json.dumps(key, sort_keys=True)
        if k not in self.d:
            while len(self.d) >= self.n:
                del self.d[next(iter(self.d))]
            self.d[k] = make()
        return self.d[k]


def group_rng(seed, k, group):
    """One generator per group of runs: they share a set-up."""
    pid, base, _ = seed.split(":")
    return random.Random(f"{pid}:{base}:g{k // group}")


def perturb(state, seed, dim, vamp=0.3, xamp=0.002):
    """Initial conditions of one run: seeded velocities and small displacements of deformable bodies."""
    import equinox as eqx
    import jax.numpy as jnp
    import numpy as np
    rs = np.random.RandomState(seed & 0x7fffffff)
    mps = []
    for mp in state.world.material_points:
        n = mp.position_stack.shape[0]
        dx = (rs.rand(n, dim) - 0.5) * xamp
        mp = eqx.tree_at(lambda q: q.position_stack, mp, (mp.position_stack + jnp.asarray(dx, mp.position_stack.dtype)))
        if getattr(mp, "velocity_stack", None) is not None:
            v = rs.uniform(-vamp, vamp, size=(1, dim)) + (rs.rand(n, dim) - 0.5) * vamp * 0.3
            mp = eqx.tree_at(lambda q: q.velocity_stack, mp, mp.velocity_stack + jnp.asarray(v, mp.velocity_stack.dtype))
        mps.append(mp)
    return eqx.tree_at(lambda q: q.world.material_points, state, tuple(mps))


def finite(state):
    import numpy as np
    for mp in state.world.material_points:
        if not np.all(np.isfinite(np.asarray(mp.position_stack))):
            return False
    return True


def gen_history(rng, nmax, *, fs=(1.0, 0.7, 0.5, 0.3, 0.1, 0.01), change=0.25, breaks=True, maxbreaks=4):
    """Steps with dt changes, and stops: checkpoint saves, resumes from one of them, rollbacks to a kept state."""
    n = rng.randint(max(2, nmax // 5), nmax)
    ev, f, i = [], rng.choice([1.0, 1.0, 0.5]), 0
    while i < n:
        if rng.random() < change:
            f = rng.choice(fs)
        k = min(n - i, rng.choice([1, 1, 2, 3, 5, 8]))
        ev.append({"op": "step", "f": f, "n": k})
        i += k
    if breaks:
        for _ in range(rng.randint(0, maxbreaks)):
            r = rng.random()
            j = rng.randrange(0, len(ev) + 1)
            if r < 0.45:
                ev.insert(j, {"op": "save"})
                ev.insert(rng.randrange(j + 1, len(ev) + 1), {"op": "resume", "back": rng.choice([0, 0, 1])})
            elif r < 0.7:
                ev.insert(j, {"op": "restart"})          # save, tear down, resume at once
            else:
                ev.insert(j, {"op": "rollback", "back": rng.choice([0, 1, 2, 5])})
    return ev


class History:
    """Drives one simulation through an event list; carries a ledger (the model's own books) with every state."""

    def __init__(self, comp, res, scratch_dir):
        import hydraxmpm.common.sim_io as io
        self.c, self.res, self.io = comp, res, io
        self.dir = scratch_dir
        self.rec = None
        self.kept = []      # (state, ledger) of past states
        self.ckpt = []      # (step number in the file name, ledger)

    def recorder(self):
        if self.rec is None:
            self.rec = self.io.SimIO(output_dir=self.dir, overwrite=True)
            self.rec.save_solver(self.c.solver)
        return self.rec

    def run(self, state, ledger, events, dt0, on_step, max_steps=10 ** 9):
        import copy
        res = self.res
        solver = self.c.solver
        steps = 0
        for n, e in enumerate(events):
            op = e["op"]
            if op == "step":
                for _ in range(e["n"]):
                    if steps >= max_steps:
                        return state, ledger
                    prev = spec_mod.with_dt(state, dt0 * e["f"])
                    state = self.c.step(prev, solver)
                    steps += 1
                    res.count("steps")
                    res.sim_time += float(prev.dt)
                    ledger = on_step(n, prev, state, ledger)
                    self.kept.append((state, ledger))
                    if len(self.kept) > 12:
                        self.kept.pop(0)
            elif op == "save" or op == "restart":
                self.recorder().save_step(state, verbose=False)
                self.ckpt.append((int(state.step), ledger))
                res.count("saves")
            if op in ("resume", "restart") and self.ckpt:
                back = e.get("back", 0)
                num, led = self.ckpt[-1 - min(back, len(self.ckpt) - 1)]
                # the last save under that number is the one in the file
                led = [l for m, l in self.ckpt if m == num][-1]
                self.rec = None
                solver, state = self.io.load_simulation(self.dir, self.c.solver, self.c.state0, num)
                self.rec = self.io.SimIO(output_dir=self.dir, overwrite=False)
                ledger = led
                res.count("fault:stop-and-resume")
            elif op == "rollback" and self.kept:
                state, ledger = self.kept[-1 - min(e["back"], len(self.kept) - 1)]
                res.count("fault:rollback")
            elif op == "call":      # property-specific change of the state
                state, ledger = e["_f"](state, ledger)
        return state, ledger

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def run_dir(tag):
    import os
    global _run_n
    _run_n += 1
    return os.path.join(env.scratch(), f"{tag}-{os.getpid()}-{_run_n}")


_run_n = 0
