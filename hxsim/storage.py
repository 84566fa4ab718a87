"""Shared parts of the storage properties: the simulated disk, the simulated wall clock, contents of
checkpoints, and the reference model of a run directory."""
import errno
import json
import os
import random
import threading

from . import compare, env, spec as spec_mod

NCFG = 40
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EINTR, errno.EDQUOT, errno.EACCES, errno.EMFILE, errno.EROFS]


class FakeDatetime:
    """Stands in for the wall clock the library stamps its metadata with."""
    now_value = 0.0

    @classmethod
    def now(cls, tz=None):
        import datetime
        return datetime.datetime(2024, 1, 1, tzinfo=tz) + datetime.timedelta(seconds=cls.now_value)

    utcnow = now
    today = now


class Ctx:
    def __init__(self):
        from . import simdisk
        self.sdmod = simdisk
        base = env.scratch()
        self.root = os.path.join(base, "disk")
        os.makedirs(self.root, exist_ok=True)
        self.root = os.path.realpath(self.root)
        self.sd = simdisk.SimDisk(self.root)
        self.cfg_cache = {}
        import hydraxmpm.common.sim_io as sim_io
        self.sim_io = sim_io
        if hasattr(sim_io, "datetime"):
            sim_io.datetime = FakeDatetime
        self._warm()
        patch_threads()

    def _warm(self):
        """Run every code path once outside the simulator, so that imports, buffers and caches are in place."""
        d = os.path.join(self.root, "warm")
        sk, st = self.skeletons(0)
        r = self.sim_io.SimIO(output_dir=d, overwrite=True)
        r.save_solver(sk)
        r.save_step(st)
        self.sim_io.load_simulation(d, sk, st, int(st.step))
        with self.sd.inside():
            r = self.sim_io.SimIO(output_dir=d, overwrite=True)
            r.save_solver(sk)
            r.save_step(st)
        self.sdmod.wipe(self.root)

    def skeletons(self, cfg):
        """(solver, state) as the set-up code of configuration cfg builds them."""
        if cfg not in self.cfg_cache:
            if len(self.cfg_cache) > 12:
                self.cfg_cache.clear()
            rng = random.Random(f"storage-cfg:{cfg}")
            sp = spec_mod.gen_spec(rng)
            solver, state, _ = spec_mod.build(sp)
            self.cfg_cache[cfg] = (solver, state)
        return self.cfg_cache[cfg]

    def reset_disk(self):
        self.sd.reset()
        self.sdmod.wipe(self.root)


def fill(tree, seed, step=None):
    """The same pytree with every data leaf replaced by seeded content (all bit patterns)."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    rs = np.random.RandomState(seed & 0x7fffffff)
    leaves, td = jax.tree_util.tree_flatten(tree)
    out = []
    for x in leaves:
        if compare.is_arr(x):
            dt = np.dtype(x.dtype)
            if dt == np.bool_:
                a = rs.randint(0, 2, size=x.shape).astype(bool)
            else:
                n = int(np.prod(x.shape)) * dt.itemsize
                a = np.frombuffer(rs.bytes(max(n, 1))[:n], dtype=dt).reshape(x.shape)
                if dt.kind == "f" and rs.randint(0, 2):
                    a = rs.standard_normal(x.shape).astype(dt)
            out.append(jnp.asarray(a))
        elif isinstance(x, bool):
            out.append(bool(rs.randint(0, 2)))
        elif isinstance(x, int):
            out.append(int(rs.randint(0, 1 << 30)))
        elif isinstance(x, float):
            out.append(float(rs.choice([rs.standard_normal(), float(rs.randint(0, 5)), 1e-300, 1e300])))
        else:
            out.append(x)
    t = jax.tree_util.tree_unflatten(td, out)
    if step is not None:
        import equinox as eqx
        s = jnp.asarray(step, tree.step.dtype) if compare.is_arr(tree.step) else int(step)
        t = eqx.tree_at(lambda q: q.step, t, s)
    return t


class Pending:
    """Threads the library starts inside the simulator run when they are joined, or not at all
    before a crash: a deterministic stand-in for the thread scheduler."""
    queue = None


def patch_threads():
    real_start, real_join = threading.Thread.start, threading.Thread.join

    def start(self):
        if Pending.queue is None:
            return real_start(self)
        self._hx_done = False
        self._started.set()
        Pending.queue.append(self)

    def join(self, timeout=None):
        if not hasattr(self, "_hx_done"):
            return real_join(self, timeout)
        if not self._hx_done:
            self._hx_done = True
            self.run()

    threading.Thread.start, threading.Thread.join = start, join


class Slot:
    """What a checkpoint name may hold: a list of acceptable contents; None = nothing there."""

    def __init__(self):
        self.allowed = [None]


class Dirs:
    """Reference model: run directory -> slots ('solver' or step number)."""

    def __init__(self):
        self.slots = {}       # (dir, key) -> Slot
        self.content = {}     # content id -> (tree, cfg)

    def slot(self, d, key):
        return self.slots.setdefault((d, key), Slot())

    def of(self, d):
        return [(k[1], s) for k, s in self.slots.items() if k[0] == d]


def observe(ctx, path, model, d, res, verify_only=None):
    """Load every checkpoint of directory d and return {key: content id or None or 'WRONG: ...'}."""
    out = {}
    sol = model.slots.get((d, "solver"))
    if sol is None:
        return out
    sol_ids = [c for c in sol.allowed if c is not None]
    for key, s in model.of(d):
        if key in ("solver", "meta"):
            continue
        out[key], sres = load_one(ctx, path, model, sol.allowed, s.allowed, key)
        res.count("loads")
        if sres is not _UNKNOWN:
            if "solver" in out and out["solver"] not in (_UNKNOWN, sres):
                if not (isinstance(out["solver"], str) and out["solver"].startswith("WRONG")):
                    out["solver"] = sres
            else:
                out["solver"] = sres
    if "solver" not in out:
        out["solver"] = load_solver_only(ctx, path, model, sol.allowed)
    meta = model.slots.get((d, "meta"))
    if meta is not None:
        out["meta"] = observe_meta(path, model, meta.allowed)
    return out


def observe_meta(path, model, allowed):
    """metadata.json of a configuration save: complete, and of one of the acceptable saves."""
    p = os.path.join(path, "metadata.json")
    if not os.path.exists(p):
        return None if None in allowed else "WRONG: metadata.json is missing"
    try:
        with open(p, "rb") as f:
            got = json.loads(f.read().decode())
    except ValueError as e:
        return f"WRONG: metadata.json is not readable ({e})"
    for c in allowed:
        if c is None:
            continue
        want = model.content[c][0]
        if all(got.get(k) == v for k, v in want.items()):
            return c
    return f"WRONG: metadata.json holds {got}, which was not saved"


def meta_of(n, tree, meta_info):
    d = {"type": type(tree).__name__}
    d.update(meta_info or {})
    return d


_UNKNOWN = "unknown"


def load_one(ctx, path, model, sol_allowed, st_allowed, step):
    """(state observation, solver observation)"""
    cfgs = {model.content[c][1] for c in list(sol_allowed) + list(st_allowed) if c is not None}
    if not cfgs:
        cfgs = {0}
    cfg = sorted(cfgs)[0]
    sk, st = ctx.skeletons(cfg)
    try:
        gs, gt = ctx.sim_io.load_simulation(path, sk, st, step)
    except Exception as e:
        # which part failed?  A missing configuration makes every state unloadable.
        if None in sol_allowed:
            return _UNKNOWN, _UNKNOWN
        if None in st_allowed:
            return None, _UNKNOWN
        return f"WRONG: does not load ({type(e).__name__}: {str(e)[:150]})", _UNKNOWN
    so = _match(model, sol_allowed, gs)
    to = _match(model, st_allowed, gt)
    return to, so


def load_solver_only(ctx, path, model, sol_allowed):
    """The configuration is observed through a load of a step saved into a copy of the directory."""
    ids = [c for c in sol_allowed if c is not None]
    if not ids:
        return _UNKNOWN
    cfg = model.content[ids[0]][1]
    sk, st = ctx.skeletons(cfg)
    import shutil
    tmp = os.path.join(os.path.dirname(ctx.root), "probe")
    shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.isdir(path):
        return None if None in sol_allowed else "WRONG: directory missing"
    shutil.copytree(path, tmp, symlinks=True)
    try:
        probe = fill(st, 12345, 77777)
        ctx.sim_io.SimIO(output_dir=tmp, overwrite=False).save_step(probe)
        try:
            gs, gt = ctx.sim_io.load_simulation(tmp, sk, st, 77777)
        except Exception as e:
            if None in sol_allowed:
                return None
            return f"WRONG: does not load ({type(e).__name__}: {str(e)[:150]})"
        return _match(model, sol_allowed, gs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _match(model, allowed, got):
    why = "nothing was saved there"
    for c in allowed:
        if c is None:
            continue
        d = compare.diff(model.content[c][0], got, loose_scalars=True)
        if d is None:
            return c
        why = d
    return f"WRONG: {why}"
