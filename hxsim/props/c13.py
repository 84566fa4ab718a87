"""C13: frame export is exact, contained and honest about failures."""
import errno
import os
import random

from .. import storage
from ..engine import Violation
from .c02 import describe, gen_fault, plan

ID, LEVEL = "C13", "exploration"
TECHNIQUE = "deterministic simulation: seeded export histories with storage faults (errno, short write, EINTR, full disk) and process kills at every file operation of an export"
LEVEL_NOTE = ("Seeded search over export histories, fault placements and kill points; faults are injected at the system-call boundary, so the native writer and "
              "Python meet them alike; read-back goes through pyvista/VTK's own reader.")
GROUP, CHUNK = 1, 25
QUICK, THOROUGH = 800, 20000
RULE = ("each run is one seeded history of particle, domain and SDF surface exports by one or two visualizers over labels, steps and properties, with storage "
        "faults and kills on particular file operations; non-trivial if at least one fault or kill landed inside an export; distinct by event-log digest")
STATE_MEASURE = "hash of (export kind, outcome, sequence of file operations with results)"
REAL = ["hydraxmpm.common.vtk_io (VTKVisualizer)", "pyvista / VTK XML writer and reader", "SDF objects", "scikit-image", "kernel tmp file system"]
STUB = ["failing storage and process kill (simdisk system-call interposition)"]
ASSUMPTIONS = ["an operation refused with an errno had no effect, a short write stored exactly its prefix", "EINTR is only delivered to calls that had no effect"]

LABELS = ["material_points", "a", "a/b", "sim_0/particles", "sim_1/particles", "x y", "sim_10"]
PROPS = ["velocity_stack", "velocity_stack", "mass_stack", "pressure_stack", "stress_stack", "L_stack", "F_stack", "position_stack", "density_stack", "KE_stack", None, "nothing_stack"]
STEPS = [0, 1, 2, 9, 10, 11, 99, 100, 99999, 100000, 1000001]


def make_ctx():
    class Ctx(storage.Ctx):
        def _warm(self):
            super()._warm()
            import warnings
            warnings.simplefilter("ignore")
            import numpy as np
            np.seterr(all="ignore")
            from hydraxmpm.common import vtk_io
            self.vtk_io = vtk_io
            try:
                import logging
                from vtkmodules.vtkCommonCore import vtkObject
                vtkObject.GlobalWarningDisplayOff()
                logging.disable(logging.CRITICAL)
            except ImportError:
                pass
            with self.sd.inside():
                v = vtk_io.VTKVisualizer(output_dir=os.path.join(self.root, "w"))
                v.log_particles(self.skeletons(0)[1].world.material_points[0], step=1, time=0.5)
            import pyvista
            pyvista.read(os.path.join(self.root, "w", "material_points", "step_00001.vtp"))
            self.sdmod.wipe(self.root)
    return Ctx()


def generate(seed, k, tier):
    rng = random.Random(seed)
    cfg = random.Random(f"cfg{k // 25}").randrange(storage.NCFG)
    vis = ["out"] if rng.random() < 0.7 else ["out", rng.choice(["out/a", "out2"])]
    labels = rng.sample(LABELS, rng.randint(1, 3))
    steps = rng.sample(STEPS, rng.randint(1, 4))
    ev = []
    for _ in range(rng.randint(2, 10 if tier == "quick" else 24)):
        r = rng.random()
        t = rng.choice([0.0, rng.uniform(0, 5), rng.uniform(0, 1e-4), 1e6 * rng.random()])
        if r < 0.8:
            e = {"op": "particles", "step": rng.choice(steps), "c": rng.randrange(1 << 30), "prop": rng.choice(PROPS), "t": t if rng.random() < 0.9 else None,
                 "scale": rng.choice([1.0, 1.0, 2.0, 0.5]), "raw": rng.random() < 0.3}
        elif r < 0.9:
            d = rng.choice([2, 3])
            o = [rng.uniform(-2, 0) for _ in range(d)]
            e = {"op": "domain", "origin": o, "end": [x + rng.uniform(0.5, 2) for x in o], "h": rng.uniform(0.05, 0.3)}
        else:
            d = rng.choice([2, 2, 3])
            # a window anywhere, as wide as it likes in each direction, with the whole ball well inside
            start = [rng.choice([-1.0, 0.0, rng.uniform(-12, 12), rng.uniform(-2, 2)]) for _ in range(d)]
            size = [rng.choice([2.0, rng.uniform(2.0, 3.0)]) for _ in range(d)]
            e = {"op": "sdf", "start": start, "end": [a + b for a, b in zip(start, size)], "pos": [a + b / 2 + rng.uniform(-0.2, 0.2) for a, b in zip(start, size)],
                 "r": rng.uniform(0.3, 0.55), "step": rng.choice(steps + [None]), "t": t, "res": 32 if d == 2 else 20}
        e["vis"] = rng.choice(vis)
        e["label"] = rng.choice(labels)
        if e["op"] != "particles":
            e["label"] += "_" + e["op"]
        if rng.random() < 0.55:
            if rng.random() < 0.3:
                e["kill"] = {"at": rng.randrange(7), "torn": rng.choice([None, 0, 1, 500, 3000])}
            else:
                e["fault"] = gen_fault(rng, 9)
                e["retry"] = rng.random() < 0.5
        ev.append(e)
    return {"cfg": cfg, "events": ev}


def sample(trace):
    return {"cfg": trace["cfg"], "events": trace["events"][:12]}


def shrink(trace):
    ev = trace["events"]
    for i, e in enumerate(ev):
        for drop in (("fault", "retry"), ("kill",)):
            if drop[0] in e:
                yield dict(trace, events=ev[:i] + [{k: v for k, v in e.items() if k not in drop}] + ev[i + 1:])
        if e.get("fault"):
            f = e["fault"]
            for j in range(len(f["f"])):
                yield dict(trace, events=ev[:i] + [dict(e, fault=dict(f, f=f["f"][:j] + f["f"][j + 1:]))] + ev[i + 1:])
    if trace["cfg"] != 0:
        yield dict(trace, cfg=0)


def expect_particles(np, st, e):
    """What the frame has to contain, from the state alone (None: not checked)."""
    x = np.asarray(st.position_stack)
    n, dim = x.shape
    pts = np.zeros((n, 3))
    pts[:, :dim] = x
    v0 = np.asarray(st.volume0_stack, np.float64)
    rad = (np.sqrt(v0 / np.pi) if dim == 2 else np.cbrt(np.where(v0 >= 0, v0, np.nan) * 3 / (4 * np.pi))) * e["scale"]
    p = getattr(st, e["prop"], None) if e["prop"] else None
    if p is not None:
        p = np.asarray(p)
        if p.ndim == 2 and p.shape[1] == 2:
            p = np.concatenate([p, np.zeros((n, 1))], 1)
        elif p.ndim == 3:
            p = p.transpose(0, 2, 1).reshape(n, -1)      # VTK keeps tensors column by column
    return {"kind": "particles", "points": pts, "radius": rad, "prop": (e["prop"], p) if p is not None else None, "time": e["t"]}


def matches(np, pv, path, want):
    """None if the file at path holds exactly the wanted frame, else why not."""
    try:
        with open(path, "rb") as f:
            head = f.read(5)
        m = pv.read(path)
    except Exception as x:
        return f"does not read ({type(x).__name__}: {str(x)[:100]})"
    if head[:1] != b"<":
        return "is not a VTK XML file"
    if m is None or not m.n_points:
        return "is empty or truncated"
    same = lambda a, b: a.shape == b.shape and np.array_equal(a.astype(np.float64), np.asarray(b, np.float64), equal_nan=True)
    if want["kind"] == "domain":
        b = np.asarray(m.bounds)
        if m.n_cells != 6 or not np.allclose(b, want["bounds"], rtol=1e-6, atol=1e-6):
            return f"domain bounds are {b.tolist()}, wanted {want['bounds']}"
        return None
    t = m.field_data["TimeValue"] if "TimeValue" in m.field_data else None
    if want["time"] is None:
        if t is not None:
            return f"has time {t} although none was given"
    elif t is None or len(t) != 1 or float(t[0]) != want["time"]:
        return f"has time {None if t is None else t.tolist()}, wanted {want['time']}"
    pts = np.asarray(m.points, np.float64)
    if want["kind"] == "sdf":
        d = len(want["pos"])
        if len(pts) < 8 or m.n_cells < 1:
            return f"surface has {len(pts)} points"
        err = np.abs(np.linalg.norm(pts[:, :d] - np.asarray(want["pos"]), axis=1) - want["r"])
        if not err.max() < want["tol"]:
            return f"surface point is {err.max():.3g} away from the SDF's zero level"
        span = pts[:, :d].max(0) - pts[:, :d].min(0)
        if not np.all(span > 2 * want["r"] - 4 * want["tol"] - 0.05 * want["r"]):
            return f"surface spans {span.tolist()}, radius {want['r']:.3g}"
        return None
    if not same(pts, want["points"]):
        return "positions differ from the exported state's"
    names = set(m.point_data.keys())
    if "Radius" in names:
        r = np.asarray(m.point_data["Radius"], np.float64)
        ok = (want["radius"] > 1e-9) & (want["radius"] < 1e9)      # (the rest may over- or underflow in single precision)
        if r.shape != want["radius"].shape or not np.allclose(r[ok], want["radius"][ok], rtol=1e-5, atol=0):
            return "radii differ from the exported state's"
    if want["prop"] is None:
        if names - {"Radius"}:
            return f"carries {sorted(names - {'Radius'})} although no property was requested"
        return None
    name, val = want["prop"]
    if name not in names:
        return f"lacks the property {name}"
    if not same(np.asarray(m.point_data[name]), val):
        return f"property {name} differs from the exported state's"
    return None


def execute(trace, ctx, res):
    import numpy as np
    import pyvista as pv
    import jax.numpy as jnp
    from .. import spec as spec_mod
    sd, SD = ctx.sd, ctx.sdmod
    ctx.reset_disk()
    st = ctx.skeletons(trace["cfg"])[1]
    mps = [q for q in st.world.material_points if hasattr(q, "volume0_stack")]
    vis, slots = {}, {}

    def export(e, mp):
        v = vis.get(e["vis"])
        if v is None:
            v = vis[e["vis"]] = ctx.vtk_io.VTKVisualizer(output_dir=os.path.join(ctx.root, e["vis"]))
        if e["op"] == "particles":
            k = dict(label=e["label"], property_name=e["prop"], step=e["step"], scale_radius=e["scale"])
            if e["t"] is not None:
                k["time"] = jnp.float32(e["t"]) if e["raw"] else e["t"]
            if e["raw"]:
                k["step"] = jnp.int32(e["step"])
            v.log_particles(mp, **k)
        elif e["op"] == "domain":
            v.log_static_domain(e["origin"], e["end"], e["h"], label=e["label"])
        else:
            from hydraxmpm.sdf import sdfcollection as sc
            d = len(e["pos"])
            logic = sc.SphereSDF(radius=e["r"])
            v.log_sdf(logic, logic.create_state(center_of_mass=jnp.asarray(e["pos"])), tuple(e["start"]), tuple(e["end"]), resolution=e["res"], label=e["label"], step=e["step"], time=e["t"])

    for n, e in enumerate(trace["events"]):
        mp = None
        if e["op"] == "particles":
            mp = mps[e["c"] % len(mps)]
            mp = storage.fill(mp, e["c"])
            if e["raw"] and e["t"] is not None:
                e = dict(e, t=float(np.float32(e["t"])))
            want = expect_particles(np, mp, e)
            name = f"step_{e['step']:05d}.vtp"
        elif e["op"] == "domain":
            b = [e["origin"][i] if j == 0 else e["end"][i] + e["h"] for i in range(len(e["origin"])) for j in (0, 1)]
            want = {"kind": "domain", "bounds": b + ([-0.01, 0.01] if len(b) == 4 else [])}
            name = "bounds.vtp"
        else:
            s = 1.1 * max(b - a for a, b in zip(e["start"], e["end"])) / e["res"]
            want = {"kind": "sdf", "pos": e["pos"], "r": e["r"], "time": e["t"], "tol": s * s / e["r"] + 1e-4}
            name = f"step_{e['step']:05d}.vtp" if e["step"] is not None else "static.vtp"
        path = os.path.join(ctx.root, e["vis"], e["label"], name)
        slot = slots.setdefault(path, [None])
        res.sim_time += 1.0
        fault, kill = e.get("fault"), e.get("kill")
        f = fault or {"f": []}
        sd.reset()
        if kill:
            sd.reset(faults=[(kill["at"], SD.F_CRASH if kill["torn"] is None else SD.F_CRASH_TORN, kill["torn"] or 0)])
        else:
            sd.reset(faults=plan(SD, f), budget=f.get("budget", -1), budget_errno=f.get("be", errno.ENOSPC))
        raised = None
        storage.Pending.queue = []
        try:
            with sd.inside():
                export(e, mp)
        except Exception as x:
            raised = x
        finally:
            storage.Pending.queue = None
        log, frozen, outside = sd.log(), sd.frozen, sd.c.outside
        fired = (sd.c.fired[SD.F_ERRNO], sd.c.fired[SD.F_SHORT], sd.c.fired[10])
        sd.reset()
        hit = any(fired) or frozen
        res.count("op:" + e["op"])
        res.count("disk-ops", len(log))
        for r in log:
            if r.fault == SD.F_ERRNO:
                res.count(f"fault:{errno.errorcode.get(-r.ret, r.ret)}-in-{SD.OPNAME[r.kind]}")
        res.count("fault:short-write", fired[1])
        res.count("fault:disk-full", fired[2])
        res.count("fault:kill-inside", int(frozen))
        res.note(n, e["op"], type(raised).__name__, frozen, [r.key() for r in log])
        if hit:
            res.nontrivial = True
            res.state(e["op"], type(raised).__name__, frozen, [(r.kind, r.ret if r.ret < 0 else 0, r.fault) for r in log])
            res.count("exports-failed" if raised is not None or frozen else "exports-survived")
        where = f"event {n}: export of {e['op']} to {e['label']}/{name}"
        if outside:
            raise Violation("outside", f"{where} touched a path outside its output directory")
        if raised is not None and not hit:
            raise Violation("fault-free-failure", f"{where} raised {type(raised).__name__}: {str(raised)[:200]} although nothing was disturbed")
        if frozen:
            vis.clear()
            slots[path] = slot + [want]
            what = f"was killed at {describe(log, SD) or 'file operation ' + str(kill['at'])}"
        elif raised is not None:
            slots[path] = slot + [want]
            what = f"raised {type(raised).__name__} after {describe(log, SD)}"
        else:
            slots[path] = [want]
            what = f"returned after {describe(log, SD)}" if hit else "returned"
        check(np, pv, slots, path, f"{where} {what}", raised is None and not frozen, hit or n == len(trace["events"]) - 1, res)
        if hit and raised is not None and not frozen and e.get("retry"):
            res.count("retries")
            try:
                with sd.inside():
                    export(e, mp)
            except Exception as x:
                raise Violation("retry-fails", f"{where} still raises {type(x).__name__}: {str(x)[:200]} with the fault gone")
            slots[path] = [want]
            check(np, pv, slots, path, f"{where} repeated without the fault", True, False, res)


def check(np, pv, slots, mine, where, returned, everything, res):
    for path in sorted(slots):
        if path != mine and not everything:
            continue
        allowed = slots[path]
        if not os.path.exists(path):
            if None in allowed:
                slots[path] = [None]
                continue
            raise Violation("silent-failure" if path == mine and returned else "frame-lost", f"{where}: {os.path.basename(os.path.dirname(path))}/{os.path.basename(path)} is not there")
        why = None
        for i, w in enumerate(allowed):
            if w is None:
                continue
            res.count("frames-read")
            why = matches(np, pv, path, w)
            if why is None:
                slots[path] = [w]
                break
        else:
            kind = "silent-failure" if path == mine and returned else "partial-frame" if path == mine else "other-frame-damaged"
            raise Violation(kind, f"{where}: {os.path.basename(os.path.dirname(path))}/{os.path.basename(path)} {why or 'exists although nothing was exported there'}")
