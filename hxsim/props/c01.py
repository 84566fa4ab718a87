"""C01: checkpoints survive process kills and power losses."""
import os
import random

from .. import storage
from ..engine import Violation

ID, LEVEL = "C01", "exploration"
TECHNIQUE = "deterministic simulation: seeded crash injection at every file operation over a journaling-disk model"
LEVEL_NOTE = ("Seeded search over histories and crash points, not exhaustive; trusts the disk model (ordered metadata journal, honest fsync) "
              "and the kernel's tmp file system for the operations that are not crashed.")
GROUP, CHUNK = 1, 25
QUICK, THOROUGH = 1000, 20000
RULE = ("each run is one seeded history of recorder openings, solver and step saves over one or two run directories with up to four "
        "crashes (kill or power loss, at a file-system operation inside a save or right after it returned); a run is non-trivial "
        "if at least one crash fired and at least one checkpoint was committed before it; distinct by event-log digest")
STATE_MEASURE = "hash of (directory image after each crash, operation at which it struck)"
REAL = ["hydraxmpm.common.sim_io (SimIO, load_simulation)", "equinox/numpy serialisation", "CPython io and os modules", "kernel tmp file system",
        "hydraxmpm builder, states, laws, solvers as saved content"]
STUB = ["disk write-back and crash behaviour (simdisk syscall interposition + journaling-disk model)", "wall clock (datetime.now)",
        "thread scheduler for threads the library might start"]
ASSUMPTIONS = ["journaling file system: directory operations reach the disk in order and any fsync commits the earlier ones",
               "fsync is honest; unsynced data may be lost per write, torn, or zero-length"]
STEPS = [0, 1, 2, 7, 10, 99, 12345, 99999, 100000, 1234567]


def make_ctx():
    return storage.Ctx()


def generate(seed, k, tier):
    rng = random.Random(seed)
    cfg = random.Random(f"cfg{k // 25}").randrange(storage.NCFG)
    dirs = ["run"] if rng.random() < 0.7 else ["run", rng.choice(["run2", "run/inner", "other/deep/dir"])]
    ev = []
    for d in dirs:
        ev.append({"op": "open", "dir": d})
        ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30), "meta": rng.random() < 0.5})
    n = rng.randint(2, 14 if tier == "quick" else 24)
    steps = rng.sample(STEPS, rng.randint(1, 4))
    crashes = rng.choice([1, 1, 2, 3, 4])
    for _ in range(n):
        d = rng.choice(dirs)
        r = rng.random()
        if r < 0.72:
            ev.append({"op": "save", "dir": d, "step": rng.choice(steps), "c": rng.randrange(1 << 30), "v": rng.random() < 0.3})
        elif r < 0.88:
            ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30), "meta": rng.random() < 0.5})
        else:
            ev.append({"op": "open", "dir": d})
    for i in rng.sample(range(len(ev)), min(crashes, len(ev))):
        at = rng.choice([rng.randrange(0, 8), rng.randrange(0, 8), rng.randrange(0, 60), 10 ** 6])
        ev[i]["crash"] = {"at": at, "torn": rng.choice([None, None, 0, 1, rng.randrange(0, 4096), rng.randrange(0, 20000)]),
                          "image": rng.choice(["kill", "none", "meta", "random", "random"]), "s": rng.randrange(1 << 30)}
    return {"cfg": cfg, "events": ev}


def shrink(trace):
    ev = trace["events"]
    for i, e in enumerate(ev):
        if e.get("crash"):
            e2 = {k: v for k, v in e.items() if k != "crash"}
            yield dict(trace, events=ev[:i] + [e2] + ev[i + 1:])
            c = e["crash"]
            for img in ("kill", "none", "meta"):
                if c["image"] == "random" or (c["image"] == "meta" and img in ("kill", "none")):
                    yield dict(trace, events=ev[:i] + [dict(e, crash=dict(c, image=img))] + ev[i + 1:])
            if c["torn"] is not None:
                yield dict(trace, events=ev[:i] + [dict(e, crash=dict(c, torn=None))] + ev[i + 1:])
            if c["at"] > 0:
                for a in (0, c["at"] // 2, c["at"] - 1):
                    if a < c["at"]:
                        yield dict(trace, events=ev[:i] + [dict(e, crash=dict(c, at=a))] + ev[i + 1:])
        if e.get("step") not in (None, 1):
            if not any(x.get("step") == 1 for x in ev):
                yield dict(trace, events=[dict(x, step=1) if x.get("step") == e["step"] else x for x in ev])
    if trace["cfg"] != 0:
        yield dict(trace, cfg=0)


def sample(trace):
    return {"cfg": trace["cfg"], "events": trace["events"][:12]}


def execute(trace, ctx, res):
    sd, SD = ctx.sd, ctx.sdmod
    ctx.reset_disk()
    root = ctx.root
    storage.FakeDatetime.now_value = 0.0
    model = storage.Dirs()
    disk = SD.DiskModel(root)
    disk.snapshot_real()
    rec = {}
    cid = 0
    committed = False
    crashed = 0
    cfg = trace["cfg"]

    def path(d):
        return os.path.join(root, d)

    def recorder(d):
        if d not in rec:
            rec[d] = ctx.sim_io.SimIO(output_dir=path(d), overwrite=False)
        return rec[d]

    for n, e in enumerate(trace["events"]):
        d, op = e["dir"], e["op"]
        crash = e.get("crash")
        storage.FakeDatetime.now_value += 7.0 if (n % 5) else -3600.0
        res.sim_time += 7.0
        slot = new = None
        if op == "save":
            sk, st = ctx.skeletons(cfg)
            tree = storage.fill(st, e["c"], e["step"])
            slot = model.slot(d, e["step"])
        elif op == "solver":
            sk, st = ctx.skeletons(cfg)
            tree = storage.fill(sk, e["c"])
            slot = model.slot(d, "solver")
        if slot is not None:
            cid += 1
            new = cid
            model.content[new] = (tree, cfg)
        mslot = None
        if op == "solver":
            mslot = model.slot(d, "meta")
            minfo = {"n": n, "note": "x" * 50} if e.get("meta") else None
            model.content[("m", new)] = (storage.meta_of(n, tree, minfo), cfg)
        if op != "open" and d not in rec:
            with _quiet():
                # the recorder of a restarted script: opened without overwriting
                sd.reset()
                with sd.inside():
                    recorder(d)
                for r in sd.log():
                    disk.apply(r)
        faults = []
        if crash:
            faults = [(crash["at"], SD.F_CRASH if crash["torn"] is None else SD.F_CRASH_TORN, crash["torn"] or 0)]
        sd.reset(faults=faults)
        raised = None
        storage.Pending.queue = []
        try:
            with sd.inside():
                if op == "open":
                    rec[d] = ctx.sim_io.SimIO(output_dir=path(d), overwrite=False)
                elif op == "solver":
                    rec[d].save_solver(tree, meta_info=minfo)
                else:
                    rec[d].save_step(tree, verbose=e.get("v", False))
        except Exception as x:
            raised = x
        finally:
            pend, storage.Pending.queue = storage.Pending.queue, None
        frozen = sd.frozen
        log = sd.log()
        for r in log:
            disk.apply(r)
        res.count("op:" + op)
        res.count("disk-ops", len(log))
        res.note(n, op, raised is not None and not frozen, frozen, [r.key() for r in log])
        if sd.c.outside:
            raise Violation("outside", f"event {n}: {op} changed a file outside the run directory")
        if raised is not None and not frozen:
            raise Violation("fault-free-failure", f"event {n}: {op} raised {type(raised).__name__}: {str(raised)[:200]} although nothing was disturbed")
        if slot is not None:
            if frozen:
                slot.allowed = [c for c in slot.allowed] + [new]
            else:
                slot.allowed = [new]
                committed = True
            if mslot is not None:
                mslot.allowed = mslot.allowed + [("m", new)] if frozen else [("m", new)]
        if crash:
            res.count("fault:crash-inside" if frozen else "fault:crash-after-return")
            res.count("fault:image-" + crash["image"])
            if crash["torn"] is not None and frozen:
                res.count("fault:torn-write")
            crashed += 1
            # choose what survives
            if sd.c.escaped_threads or sd.c.unsupported or not disk.supported:
                disk.snapshot_real()
                res.count("escaped")
            img = crash["image"]
            if img == "kill":
                image = SD.real_image(root)
            else:
                image, lost = disk.power_image(random.Random(crash["s"]), img)
                if lost:
                    res.count("fault:lost-writes")
                SD.materialise(image, root)
            rec.clear()
            disk = SD.DiskModel(root)
            disk.snapshot_real()
            res.state("crash", op, len(log), img, sorted((p[len(root):], v if isinstance(v, str) else hash_bytes(v)) for p, v in image.items()))
            if committed:
                res.nontrivial = True
            where = f"{'inside' if frozen else 'after'} {op} (event {n}, {'kill' if img == 'kill' else 'power loss/' + img})"
            check(ctx, model, res, path, where)
            # a script that starts again saves its configuration if there is none
            for dd in sorted({k[0] for k in model.slots}):
                s = model.slots.get((dd, "solver"))
                if s is None or s.allowed == [None] or None in s.allowed:
                    cid += 1
                    sk, st = ctx.skeletons(cfg)
                    t = storage.fill(sk, cid)
                    model.content[cid] = (t, cfg)
                    sd.reset()
                    with sd.inside():
                        recorder(dd).save_solver(t)
                    for r in sd.log():
                        disk.apply(r)
                    model.slot(dd, "solver").allowed = [cid]
                    model.content[("m", cid)] = (storage.meta_of(0, t, None), cfg)
                    model.slot(dd, "meta").allowed = [("m", cid)]
            check(ctx, model, res, path, where + ", after re-saving the configuration")
    sd.reset()
    check(ctx, model, res, path, "end of history")


def hash_bytes(b):
    import hashlib
    return hashlib.sha256(bytes(b)).hexdigest()[:12]


def check(ctx, model, res, path, where):
    for d in sorted({k[0] for k in model.slots}):
        obs = storage.observe(ctx, path(d), model, d, res)
        for key in sorted(obs, key=str):
            o = obs[key]
            s = model.slots[(d, key)]
            if isinstance(o, str) and o.startswith("WRONG"):
                kind = "committed-lost" if None not in s.allowed and len(s.allowed) == 1 else "mixed-content"
                raise Violation(kind, f"{where}: {d}/{key}: {o}")
            if o == storage._UNKNOWN:
                continue
            if o is None and None not in s.allowed:
                raise Violation("committed-lost", f"{where}: {d}/{key}: nothing is there")
            s.allowed = [o]
            res.note(d, key, o)


class _quiet:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
