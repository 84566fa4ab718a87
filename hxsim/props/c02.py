"""C02: failed checkpoint writes are reported and contained."""
import errno
import os
import random

from .. import storage
from ..engine import Violation

ID, LEVEL = "C02", "exploration"
TECHNIQUE = "deterministic simulation: seeded storage faults (errno, short write, EINTR, full disk) at every file operation of a save"
LEVEL_NOTE = ("Seeded search over save histories and fault placements, not exhaustive; faults are injected at the system-call boundary, so "
              "whatever library layer performs the write meets them; trusts the kernel's tmp file system for the undisturbed operations.")
GROUP, CHUNK = 1, 25
QUICK, THOROUGH = 1000, 20000
RULE = ("each run is one seeded history of recorder openings, solver saves and step saves in one or two run directories, most of them with storage "
        "faults placed on particular file operations; non-trivial if at least one fault fired inside a save; distinct by event-log digest")
STATE_MEASURE = "hash of (operation, fault plan outcome, sequence of file operations with results)"
REAL = ["hydraxmpm.common.sim_io (SimIO, load_simulation)", "equinox/numpy serialisation", "CPython io and os modules", "kernel tmp file system"]
STUB = ["failing storage (simdisk system-call interposition)", "wall clock (datetime.now)", "thread scheduler for threads the library might start"]
ASSUMPTIONS = ["an operation refused with an errno had no effect, a short write stored exactly its prefix",
               "EINTR is only delivered to calls that had no effect"]
STEPS = [0, 1, 2, 7, 10, 99, 12345, 99999, 100000, 1234567]
E_ANY = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EMFILE, errno.EROFS, errno.EFBIG, errno.ENOMEM]


def make_ctx():
    return storage.Ctx()


def gen_fault(rng, nops=9):
    """A plan for one call: list of [op, kind, arg] plus an optional byte budget."""
    k = rng.choice(["errno", "errno", "errno", "short", "short", "budget", "budget", "eintr", "dead", "mix", "late"])
    at = rng.randrange(nops)
    if k == "errno":
        return {"f": [[at, "errno", rng.choice(E_ANY)]]}
    if k == "short":
        return {"f": [[i, "short", rng.choice([1, 7, 100, 1000, 4000, 4095])] for i in sorted(rng.sample(range(nops), rng.randint(1, 3)))]}
    if k == "eintr":
        return {"f": [[i, "errno", errno.EINTR] for i in sorted(rng.sample(range(nops), rng.randint(1, 4)))]}
    if k == "budget":
        return {"f": [], "budget": rng.choice([0, 1, 100, rng.randrange(0, 5000), rng.randrange(0, 5000), rng.randrange(0, 40000)]),
                "be": rng.choice([errno.ENOSPC, errno.ENOSPC, errno.EDQUOT])}
    if k == "dead":
        e = rng.choice([errno.EIO, errno.EROFS, errno.ENOSPC])
        return {"f": [[i, "errno", e] for i in range(at, at + 60)]}
    if k == "late":
        return {"f": [[rng.randrange(4, 40), "errno", rng.choice(E_ANY)]]}
    fs = []
    for i in sorted(rng.sample(range(nops), rng.randint(2, 4))):
        fs.append([i, "short", rng.choice([1, 500, 4000])] if rng.random() < 0.5 else [i, "errno", rng.choice([errno.EINTR, errno.EIO])])
    return {"f": fs}


def generate(seed, k, tier):
    rng = random.Random(seed)
    cfg = random.Random(f"cfg{k // 25}").randrange(storage.NCFG)
    dirs = ["run"] if rng.random() < 0.7 else ["run", rng.choice(["run2", "other/deep/dir"])]
    ev = []
    for d in dirs:
        ev.append({"op": "open", "dir": d})
        ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30), "meta": rng.random() < 0.5})
    steps = rng.sample(STEPS, rng.randint(1, 4))
    for _ in range(rng.randint(2, 12 if tier == "quick" else 24)):
        d = rng.choice(dirs)
        r = rng.random()
        if r < 0.75:
            e = {"op": "save", "dir": d, "step": rng.choice(steps), "c": rng.randrange(1 << 30), "v": rng.random() < 0.2}
        elif r < 0.93:
            e = {"op": "solver", "dir": d, "c": rng.randrange(1 << 30), "meta": rng.random() < 0.5}
        else:
            e = {"op": "open", "dir": d}
        if e["op"] != "open" and rng.random() < 0.6:
            e["fault"] = gen_fault(rng, 9 if e["op"] == "save" else 13)
            e["retry"] = rng.random() < 0.5
        ev.append(e)
    return {"cfg": cfg, "events": ev}


def shrink(trace):
    ev = trace["events"]
    for i, e in enumerate(ev):
        f = e.get("fault")
        if not f:
            continue
        yield dict(trace, events=ev[:i] + [{k: v for k, v in e.items() if k not in ("fault", "retry")}] + ev[i + 1:])
        if e.get("retry"):
            yield dict(trace, events=ev[:i] + [dict(e, retry=False)] + ev[i + 1:])
        for j in range(len(f["f"])):
            yield dict(trace, events=ev[:i] + [dict(e, fault=dict(f, f=f["f"][:j] + f["f"][j + 1:]))] + ev[i + 1:])
        if f.get("budget"):
            for b in (0, f["budget"] // 2, f["budget"] - 1):
                yield dict(trace, events=ev[:i] + [dict(e, fault=dict(f, budget=b))] + ev[i + 1:])
    if trace["cfg"] != 0:
        yield dict(trace, cfg=0)


def sample(trace):
    return {"cfg": trace["cfg"], "events": trace["events"][:12]}


def plan(SD, f):
    return [(op, SD.F_ERRNO if k == "errno" else SD.F_SHORT, a) for op, k, a in f["f"]]


def execute(trace, ctx, res):
    sd, SD = ctx.sd, ctx.sdmod
    ctx.reset_disk()
    root = ctx.root
    storage.FakeDatetime.now_value = 0.0
    model = storage.Dirs()
    rec = {}
    cid = 0
    cfg = trace["cfg"]

    def path(d):
        return os.path.join(root, d)

    def call(e, tree, minfo=None):
        """One undisturbed library call in the simulator; returns the exception or None."""
        sd.reset()
        raised = None
        storage.Pending.queue = []
        try:
            with sd.inside():
                d = e["dir"]
                if e["op"] == "open" or d not in rec:
                    rec[d] = ctx.sim_io.SimIO(output_dir=path(d), overwrite=False)
                if e["op"] == "solver":
                    rec[d].save_solver(tree, meta_info=minfo)
                elif e["op"] == "save":
                    rec[d].save_step(tree, verbose=e.get("v", False))
        except Exception as x:
            raised = x
        finally:
            storage.Pending.queue = None
        sd.reset()
        return raised

    for n, e in enumerate(trace["events"]):
        d, op = e["dir"], e["op"]
        storage.FakeDatetime.now_value += 7.0
        res.sim_time += 7.0
        tree = slot = new = None
        if op == "save":
            tree = storage.fill(ctx.skeletons(cfg)[1], e["c"], e["step"])
            slot = model.slot(d, e["step"])
        elif op == "solver":
            tree = storage.fill(ctx.skeletons(cfg)[0], e["c"])
            slot = model.slot(d, "solver")
        if slot is not None:
            cid += 1
            new = cid
            model.content[new] = (tree, cfg)
        mslot = minfo = None
        if op == "solver":
            mslot = model.slot(d, "meta")
            minfo = {"n": n, "note": "x" * 50} if e.get("meta") else None
            model.content[("m", new)] = (storage.meta_of(n, tree, minfo), cfg)
        fault = e.get("fault")
        f = fault or {"f": []}
        if op != "open" and d not in rec:
            call({"op": "open", "dir": d}, None)
        # -- the call
        sd.reset(faults=plan(SD, f), budget=f.get("budget", -1), budget_errno=f.get("be", errno.ENOSPC))
        raised = None
        storage.Pending.queue = []
        try:
            with sd.inside():
                if op == "open":
                    rec[d] = ctx.sim_io.SimIO(output_dir=path(d), overwrite=False)
                elif op == "solver":
                    rec[d].save_solver(tree, meta_info=minfo)
                else:
                    rec[d].save_step(tree, verbose=e.get("v", False))
        except Exception as x:
            raised = x
        finally:
            storage.Pending.queue = None
        log = sd.log()
        fired = (sd.c.fired[SD.F_ERRNO], sd.c.fired[SD.F_SHORT], sd.c.fired[10])
        outside = sd.c.outside
        sd.reset()
        hit = any(fired)
        res.count("op:" + op)
        res.count("disk-ops", len(log))
        for r in log:
            if r.fault == SD.F_ERRNO:
                res.count(f"fault:{errno.errorcode.get(-r.ret, r.ret)}-in-{SD.OPNAME[r.kind]}")
        res.count("fault:short-write", fired[1])
        res.count("fault:disk-full", fired[2])
        res.note(n, op, type(raised).__name__, [r.key() for r in log])
        if hit:
            res.nontrivial = True
            res.state(op, type(raised).__name__, [(r.kind, r.ret if r.ret < 0 else r.len, r.fault) for r in log])
            res.count("saves-failed" if raised is not None else "saves-survived")
        if outside:
            raise Violation("outside", f"event {n}: {op} touched a path outside the run directories")
        if raised is not None and not hit:
            raise Violation("fault-free-failure", f"event {n}: {op} raised {type(raised).__name__}: {str(raised)[:200]} although nothing was disturbed")
        if slot is not None:
            slot.allowed = [new] if raised is None else slot.allowed + [new]
            if mslot is not None:
                mslot.allowed = [("m", new)] if raised is None else mslot.allowed + [("m", new)]
        if hit or n == len(trace["events"]) - 1:
            what = "" if not hit else f"{'raised ' + type(raised).__name__ if raised is not None else 'returned'} after {describe(log, SD)}"
            check(ctx, model, res, path, f"event {n}: {op} {what}", ((d, e["step"]),) if op == "save" else ((d, "solver"), (d, "meta")), raised is None)
        if hit and raised is not None and e.get("retry"):
            x = call(e, tree, minfo)
            res.count("retries")
            if x is not None:
                raise Violation("retry-fails", f"event {n}: {op} still raises {type(x).__name__}: {str(x)[:200]} with the fault gone")
            slot.allowed = [new]
            if mslot is not None:
                mslot.allowed = [("m", new)]
            check(ctx, model, res, path, f"event {n}: {op} repeated without the fault", ((d, e["step"]),) if op == "save" else ((d, "solver"), (d, "meta")), True)
    check(ctx, model, res, path, "end of history", (), True)


def describe(log, SD):
    return ", ".join(f"{SD.OPNAME[r.kind]} #{r.op} -> {errno.errorcode.get(-r.ret, r.ret) if r.ret < 0 else r.ret}"
                     for r in log if r.fault)[:300]


def check(ctx, model, res, path, where, this, returned):
    for d in sorted({k[0] for k in model.slots}):
        obs = storage.observe(ctx, path(d), model, d, res)
        for key in sorted(obs, key=str):
            o = obs[key]
            s = model.slots[(d, key)]
            mine = (d, key) in this
            if isinstance(o, str) and o.startswith("WRONG"):
                kind = "silent-failure" if mine and returned else "broken-checkpoint" if mine else "other-checkpoint-damaged"
                raise Violation(kind, f"{where}: {d}/{key}: {o}")
            if o == storage._UNKNOWN:
                continue
            if o is None and None not in s.allowed:
                raise Violation("silent-failure" if mine and returned else "checkpoint-lost", f"{where}: {d}/{key}: nothing is there")
            s.allowed = [o]
            res.note(d, key, o)
