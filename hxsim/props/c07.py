"""C07: run directories are reset or preserved as asked, and nothing else is touched."""
import errno
import os
import random
import shutil

from .. import compare, storage
from ..engine import Violation

ID, LEVEL = "C07", "exploration"
TECHNIQUE = "deterministic simulation: seeded opening histories over directory trees with crashes and I/O errors at every file operation"
LEVEL_NOTE = ("Seeded search; containment is judged from the recorded file operations and from full before/after images of the scratch tree; "
              "operations outside the scratch tree are refused and reported instead of executed.")
GROUP, CHUNK = 1, 50
QUICK, THOROUGH = 2500, 40000
RULE = ("each run is one seeded history of recorder openings (with and without overwrite; absolute, script-relative and cwd-relative; nested, "
        "sibling and prefix-named directories; foreign files, sub-directories and symbolic links) and saves, with errors and crashes placed on "
        "the openings' file operations; non-trivial if some opening found earlier checkpoints; distinct by event-log digest")
STATE_MEASURE = "hash of (opening mode, outcome, file-operation sequence)"
REAL = ["hydraxmpm.common.sim_io.SimIO", "CPython shutil/os", "kernel tmp file system"]
STUB = ["failing storage and crashes (simdisk)", "wall clock (datetime.now)"]
ASSUMPTIONS = ["as C01 for what a power loss leaves behind"]
STEPS = [0, 1, 7, 10, 12345, 100000]
NAMES = ["run", "run2", "runs/a", "run/inner", "run/inner/deep", "ru", "run.bak", "data/run", "proj/out", "proj/out2", "proj/run"]
FOREIGN = ["notes.txt", "run.txt", "run/notes.txt", "run/sub/table.csv", "run2/keep/me.dat", "runs/other.eqx", "proj/script.py",
           "state_00001.eqx", "solver_config.eqx", "run/state_x.eqx", "run/state_00001.eqx.bak", "run/.hidden", "proj/out/readme"]
E_ANY = [errno.EIO, errno.EACCES, errno.EBUSY, errno.ENOSPC, errno.EPERM, errno.EROFS, errno.ENOTEMPTY]


def make_ctx():
    return storage.Ctx()


def generate(seed, k, tier):
    rng = random.Random(seed)
    cfg = random.Random(f"cfg7:{k // 50}").randrange(storage.NCFG)
    names = rng.sample(NAMES, rng.randint(1, 4))
    if "run" not in names and rng.random() < 0.6:
        names[0] = "run"
    pre = [{"path": p, "c": rng.randrange(1 << 20)} for p in rng.sample(FOREIGN, rng.randint(0, 6))]
    links = []
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 2)):
            links.append(rng.choice([["run/link", "elsewhere"], ["run/inner_link", "elsewhere/file.dat"], ["linked_run", "elsewhere"],
                                     ["run/dangling", "nowhere"], ["dangling_run", "nowhere2"], ["run2/l", "run"]]))
        if any(a == "linked_run" for a, _ in links) and rng.random() < 0.7:
            names.append("linked_run")
        if any(a == "dangling_run" for a, _ in links) and rng.random() < 0.7:
            names.append("dangling_run")
    if rng.random() < 0.08:
        pre.append({"path": "blocked", "c": 1})
        names.append("blocked")
    ev = []
    n = rng.randint(3, 16 if tier == "quick" else 30)
    for i in range(n):
        d = rng.choice(names)
        r = rng.random()
        if r < 0.45 or i == 0:
            e = {"op": "open", "dir": d, "ow": rng.random() < 0.55, "how": rng.choice(["abs", "abs", "script", "cwd", "default"])}
            if e["how"] == "default" and not e["ow"]:
                e["how"] = "abs"
            q = rng.random()
            if q < 0.3:
                at = rng.choice([rng.randrange(0, 6), rng.randrange(0, 15)])
                m = rng.choice(["one", "one", "few", "dead"])
                if m == "one":
                    e["f"] = [[at, rng.choice(E_ANY)]]
                elif m == "few":
                    e["f"] = [[a, rng.choice(E_ANY)] for a in sorted(rng.sample(range(15), rng.randint(2, 4)))]
                else:
                    x = rng.choice(E_ANY)
                    e["f"] = [[a, x] for a in range(at, at + 60)]
            elif q < 0.45:
                e["crash"] = {"at": rng.choice([rng.randrange(0, 5), rng.randrange(0, 20), 10 ** 6]), "s": rng.randrange(1 << 30),
                              "image": "kill" if links else rng.choice(["kill", "none", "meta", "random"])}
            ev.append(e)
        elif r < 0.6:
            ev.append({"op": "solver", "dir": d, "c": rng.randrange(1 << 30)})
        else:
            ev.append({"op": "save", "dir": d, "step": rng.choice(STEPS), "c": rng.randrange(1 << 30)})
    return {"cfg": cfg, "pre": pre, "links": links, "events": ev}


def shrink(trace):
    ev = trace["events"]
    for key in ("pre", "links"):
        for i in range(len(trace[key])):
            yield dict(trace, **{key: trace[key][:i] + trace[key][i + 1:]})
    for i, e in enumerate(ev):
        for key in ("f", "crash"):
            if e.get(key):
                yield dict(trace, events=ev[:i] + [{a: b for a, b in e.items() if a != key}] + ev[i + 1:])
        if len(e.get("f", ())) > 1:
            for j in range(len(e["f"])):
                yield dict(trace, events=ev[:i] + [dict(e, f=e["f"][:j] + e["f"][j + 1:])] + ev[i + 1:])
        if e.get("how") not in (None, "abs"):
            yield dict(trace, events=ev[:i] + [dict(e, how="abs")] + ev[i + 1:])
    if trace["cfg"] != 0:
        yield dict(trace, cfg=0)


def sample(trace):
    return {k: (v[:12] if k == "events" else v) for k, v in trace.items()}


def under(p, d):
    return p == d or p.startswith(d + "/")


def execute(trace, ctx, res):
    sd, SD = ctx.sd, ctx.sdmod
    ctx.reset_disk()
    root = ctx.root
    cfg = trace["cfg"]
    storage.FakeDatetime.now_value = 0.0
    for f in trace["pre"]:
        p = os.path.join(root, f["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(f"foreign {f['c']}\n".encode() * 3)
    if trace["links"]:
        os.makedirs(os.path.join(root, "elsewhere", "sub"), exist_ok=True)
        for n in ("file.dat", "sub/x.eqx", "state_00001.eqx"):
            with open(os.path.join(root, "elsewhere", n), "wb") as fh:
                fh.write(b"precious")
        for a, b in trace["links"]:
            p = os.path.join(root, a)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                os.symlink(os.path.join(root, b), p)
    disk = SD.DiskModel(root)
    disk.snapshot_real()
    rec = {}
    saved = {}      # (dir, key) -> tree, or "maybe" after a crash
    cwd = os.getcwd()
    try:
        os.chdir(root)
        _run(trace, ctx, res, sd, SD, root, cfg, disk, rec, saved)
    finally:
        os.chdir(cwd)


def _run(trace, ctx, res, sd, SD, root, cfg, disk, rec, saved):
    def path(d):
        return os.path.join(root, d)

    def make(d, how, ow):
        if how == "script" and d.startswith("proj/"):
            return ctx.sim_io.SimIO(output_dir=d[5:], relative_dir=os.path.join(root, "proj", "script.py"), overwrite=ow)
        if how == "script":
            return ctx.sim_io.SimIO(output_dir=d, relative_dir=os.path.join(root, "script.py"), overwrite=ow)
        if how == "cwd":
            return ctx.sim_io.SimIO(output_dir=d, overwrite=ow)
        if how == "default":
            return ctx.sim_io.SimIO(output_dir=path(d))
        return ctx.sim_io.SimIO(output_dir=path(d), overwrite=ow)

    def contained(before, after, d, what):
        """Nothing outside directory d differs, except parents of d that had to be created."""
        p = path(d)
        for q in sorted(set(before) | set(after)):
            if before.get(q) == after.get(q) or under(q, p):
                continue
            if q not in before and after[q] == "dir" and p.startswith(q + "/"):
                continue
            if os.path.islink(p) and before.get(p) == after.get(p) and under(q, os.path.realpath(p)) and ": open" not in what:
                continue
            raise Violation("outside-touched", f"{what}: {q[len(root) + 1:]} was {'created' if q not in before else 'deleted' if q not in after else 'changed'}")

    for n, e in enumerate(trace["events"]):
        d, op = e["dir"], e["op"]
        storage.FakeDatetime.now_value += 7.0
        res.sim_time += 7.0
        before = SD.real_image(root)
        crash = e.get("crash")
        durable = {p: (v if v == "dir" else bytes(v.synced)) for p, v in disk.dur.items()} if crash else {}
        pending = {p for o in disk.journal for p in o[1:] if isinstance(p, str)} if crash else set()
        faults = []
        if crash:
            faults = [(crash["at"], SD.F_CRASH, 0)]
        elif e.get("f"):
            faults = [(a, SD.F_ERRNO, x) for a, x in e["f"]]
        if op != "open" and (d not in rec or not os.path.isdir(path(d))):
            continue
        tree = None
        if op == "save":
            tree = storage.fill(ctx.skeletons(cfg)[1], e["c"], e["step"])
        elif op == "solver":
            tree = storage.fill(ctx.skeletons(cfg)[0], e["c"])
        sd.reset(faults=faults)
        err = r = None
        storage.Pending.queue = []
        try:
            with sd.inside():
                if op == "open":
                    r = make(d, e["how"], e["ow"])
                elif op == "solver":
                    rec[d].save_solver(tree)
                else:
                    rec[d].save_step(tree, verbose=False)
        except Exception as x:
            err = x
        finally:
            storage.Pending.queue = None
        frozen = sd.frozen
        hits = sd.c.fired[SD.F_ERRNO]
        outside = sd.c.outside
        log = sd.log()
        for q in log:
            disk.apply(q)
        sd.reset()
        what = f"event {n}: {op} {d}" + (f" (overwrite={e['ow']}, {e['how']})" if op == "open" else "")
        res.count("op:" + op)
        res.count("disk-ops", len(log))
        for q in log:
            if q.fault == SD.F_ERRNO:
                res.count(f"fault:{errno.errorcode.get(-q.ret, q.ret)}-in-{SD.OPNAME[q.kind]}")
        res.note(n, op, d, e.get("ow"), type(err).__name__ if not frozen else "crash", [q.key() for q in sorted(log, key=lambda q: (q.p1, q.kind))])
        if outside:
            raise Violation("outside-touched", f"{what}: an operation outside the scratch tree was attempted")
        now = SD.real_image(root)
        had = [k for k in saved if k[0] == d]
        if op == "open":
            if had:
                res.nontrivial = True
            res.state(e["ow"], e["how"], type(err).__name__, frozen, [(q.kind, q.ret < 0, q.fault) for q in log][:40])
        contained(before, now, d, what)
        if crash:
            res.count("fault:crash-inside" if frozen else "fault:crash-after-return")
            if crash["image"] != "kill":
                image, lost = disk.power_image(random.Random(crash["s"]), crash["image"])
                res.count("fault:lost-operations", lost)
                SD.materialise(image, root)
            now = SD.real_image(root)
            rec.clear()
            disk = SD.DiskModel(root)
            disk.snapshot_real()
            if crash["image"] != "kill":     # what had not reached the disk before may be lost
                soft = {q for q in set(before) | set(durable) if before.get(q) != durable.get(q)}
                soft |= {q for q in set(before) | set(now) if any(under(q, p) for p in pending)}
                before = {q: v for q, v in before.items() if q not in soft}
                contained(before, {q: v for q, v in now.items() if q not in soft}, d, what + " and crash")
            else:
                contained(before, now, d, what + " and crash")
        if op == "open":
            if err is not None and not frozen:
                if not hits and not os.path.islink(path(d)) and not _blocked(root, d, before):
                    raise Violation("fault-free-failure", f"{what} raised {type(err).__name__}: {str(err)[:200]} although nothing was disturbed")
                res.count("openings-refused")
            if not e["ow"]:
                # every byte that was there is still there
                for q, v in before.items():
                    if under(q, path(d)) and now.get(q) != v:
                        raise Violation("not-preserved", f"{what}: {q[len(root) + 1:]} {'is gone' if q not in now else 'changed'}")
            if err is None and not frozen:
                if not crash and not os.path.isdir(path(d)):
                    raise Violation("not-created", f"{what} returned but there is no such directory")
                if not crash:
                    rec[d] = r
                if e["ow"] and not crash:
                    gone = [k for k in saved if under(path(k[0]), path(d))]
                    check_cleared(ctx, cfg, res, path, d, [k[1] for k in gone if k[0] == d], what)
            if e["ow"]:
                for k in [k for k in saved if under(path(k[0]), path(d))]:
                    if err is None and not frozen and not crash:
                        if k[0] == d:
                            del saved[k]
                        else:
                            saved[k] = "maybe"
                    else:
                        saved[k] = "maybe"
            for k in [k for k in rec if not os.path.isdir(path(k))]:
                del rec[k]
        else:
            if err is not None:
                raise Violation("fault-free-failure", f"{what} raised {type(err).__name__}: {str(err)[:200]} although nothing was disturbed")
            saved[d, e.get("step", "solver")] = tree
        # checkpoints of all directories that nobody reset still load
        if op == "open" or n == len(trace["events"]) - 1:
            check_loads(ctx, cfg, res, path, saved, what)


def _blocked(root, d, before):
    """A regular file (or dangling link) stands where a directory is needed."""
    p = os.path.join(root, d)
    while len(p) > len(root):
        if p in before and before[p] != "dir":
            return True
        p = os.path.dirname(p)
    return False


def check_cleared(ctx, cfg, res, path, d, keys, what):
    """Nothing of an earlier run can be loaded, not even once the new run has saved its configuration."""
    sk, st = ctx.skeletons(cfg)
    tmp = os.path.join(os.path.dirname(ctx.root), "probe7")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(path(d), tmp, symlinks=True)
    try:
        for phase in (0, 1):
            if phase:
                ctx.sim_io.SimIO(output_dir=tmp, overwrite=False).save_solver(sk)
            for k in keys:
                if k == "solver":
                    continue
                try:
                    ctx.sim_io.load_simulation(tmp, sk, st, k)
                except Exception:
                    continue
                raise Violation("not-cleared", f"{what}: step {k} of an earlier run still loads{' once a configuration is saved' if phase else ''}")
        if "solver" in keys:
            shutil.rmtree(tmp)
            shutil.copytree(path(d), tmp, symlinks=True)
            ctx.sim_io.SimIO(output_dir=tmp, overwrite=False).save_step(storage.fill(st, 5, 424242), verbose=False)
            try:
                ctx.sim_io.load_simulation(tmp, sk, st, 424242)
            except Exception:
                return
            raise Violation("not-cleared", f"{what}: the configuration of an earlier run still loads")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_loads(ctx, cfg, res, path, saved, what):
    sk, st = ctx.skeletons(cfg)
    for (d, k), t in sorted(saved.items(), key=lambda kv: (kv[0][0], str(kv[0][1]))):
        if k == "solver" or isinstance(t, str):
            continue
        s = saved.get((d, "solver"))
        if s is None or isinstance(s, str):
            continue
        try:
            gs, gt = ctx.sim_io.load_simulation(path(d), sk, st, k)
        except Exception as x:
            raise Violation("checkpoint-lost", f"{what}: {d} step {k} does not load any more ({type(x).__name__}: {str(x)[:150]})")
        x = compare.diff(t, gt, loose_scalars=True) or compare.diff(s, gs, loose_scalars=True)
        if x:
            raise Violation("checkpoint-damaged", f"{what}: {d} step {k}: {x}")
        res.count("loads")
