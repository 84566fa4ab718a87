"""Run engine: seeds -> traces -> executions in worker processes, minimisation, replay files, evidence.

A property module provides
    ID, LEVEL, RULE, REAL, STUB, ASSUMPTIONS, GROUP (runs that share a set-up), QUICK, THOROUGH (run counts)
    generate(seed:str, index:int, tier:str) -> trace (JSON)          one seed = one trace
    execute(trace, ctx) -> Result                                    one trace = one exact execution
    shrink(trace) -> iterator of smaller traces (optional)
"""
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

from . import env


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)[:2000]


class Result:
    def __init__(self):
        self.violation = None
        self.stats = {}
        self.states = set()
        self.sim_time = 0.0
        self.log = hashlib.sha256()
        self.nontrivial = False
        self.known = []

    def count(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    def note(self, *what):
        """Append to the event log digest (determinism check and distinct-state measure)."""
        self.log.update(repr(what).encode())

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])


def repo_error(e):
    """True if the exception was raised from inside the library (innermost non-dependency frame in /repo)."""
    tb = e.__traceback__
    inside = False
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(os.path.realpath(env.REPO) + "/"):
            inside = True
        tb = tb.tb_next
    return inside


class StartFailure:
    """The library could not be brought up: every run of this process reports it."""

    def __init__(self, e):
        self.e = e


def start(prop):
    try:
        return prop.make_ctx() if hasattr(prop, "make_ctx") else {}
    except Exception as e:
        if not repo_error(e):
            raise
        return StartFailure(e)


def run_trace(prop, trace, ctx):
    """Execute; classify exceptions."""
    res = Result()
    try:
        if isinstance(ctx, StartFailure):
            raise ctx.e
        prop.execute(trace, ctx, res)
    except Violation as v:
        res.violation = {"kind": v.kind, "detail": v.detail}
    except Exception as e:
        if not repo_error(e):
            raise
        loc = traceback.extract_tb(e.__traceback__)
        fr = [f for f in loc if os.path.realpath(f.filename).startswith(os.path.realpath(env.REPO) + "/")][-1]
        res.violation = {"kind": "unexpected-exception",
                         "detail": f"{type(e).__name__}: {str(e)[:300]} at {os.path.relpath(fr.filename, env.REPO)} in {fr.name}"}
    return res


def load_prop(pid):
    return importlib.import_module(f"hxsim.props.{pid.lower()}")


def seed_of(pid, base, k):
    return f"{pid}:{base}:{k}"


# ---------------------------------------------------------------------------
# worker side

def worker_main(pid):
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("HXSIM_DEBUG"):
        os.dup2(dn, 2)
    inp = os.fdopen(os.dup(0), "r")
    env.load_repo()
    prop = load_prop(pid)
    ctx = start(prop)

    def reply(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    reply({"ready": 1})
    for line in inp:
        m = json.loads(line)
        c = m["cmd"]
        try:
            if c == "runs":
                for k in m["ks"]:
                    seed = seed_of(pid, m["base"], k)
                    reply({"start": k})
                    t0 = time.monotonic()
                    trace = prop.generate(seed, k, m["tier"])
                    res = run_trace(prop, trace, ctx)
                    d = {"k": k, "seed": seed, "violation": res.violation, "stats": res.stats, "known": res.known,
                         "states": sorted(res.states)[:400], "sim_time": res.sim_time, "nontrivial": res.nontrivial,
                         "digest": res.log.hexdigest()[:24], "t": time.monotonic() - t0}
                    if res.violation or m.get("want_trace") or k in m.get("sample", ()):
                        d["trace"] = trace
                    reply(d)
                reply({"done": 1})
            elif c == "exec":
                res = run_trace(prop, m["trace"], ctx)
                reply({"violation": res.violation, "digest": res.log.hexdigest()[:24], "stats": res.stats, "known": res.known})
            elif c == "minimise":
                tr, v = minimise(prop, m["trace"], ctx, m["kind"], m["budget"])
                reply({"trace": tr, "violation": v})
            elif c == "quit":
                break
        except Exception:
            reply({"error": traceback.format_exc()[-4000:]})
    os._exit(0)


def minimise(prop, trace, ctx, kind, budget):
    """ddmin over the events, then property-specific shrinking, keeping the violation kind."""
    end = time.monotonic() + budget

    def fails(t):
        try:
            r = run_trace(prop, t, ctx)
        except Exception:
            return None
        return r.violation if r.violation and r.violation["kind"] == kind else None

    v = fails(trace)
    if v is None:
        return trace, None
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        ev = trace.get("events", [])
        n = 2
        while len(ev) >= 2 and time.monotonic() < end:
            size = max(1, len(ev) // n)
            hit = False
            i = 0
            while i < len(ev) and time.monotonic() < end:
                cand = dict(trace, events=ev[:i] + ev[i + size:])
                r = fails(cand)
                if r:
                    trace, v, ev, hit, changed = cand, r, cand["events"], True, True
                    n = max(n - 1, 2)
                else:
                    i += size
            if not hit:
                if size == 1:
                    break
                n = min(len(ev), n * 2)
        if hasattr(prop, "shrink"):
            again = True
            while again and time.monotonic() < end:
                again = False
                for cand in prop.shrink(trace):
                    if time.monotonic() > end:
                        break
                    r = fails(cand)
                    if r:
                        trace, v, again, changed = cand, r, True, True
                        break
    return trace, v


# ---------------------------------------------------------------------------
# parent side

class Worker:
    def __init__(self, pid, scratch, extra_env=None):
        e = env.child_env(scratch, getattr(load_prop(pid), "XLA", ""))
        e.update(extra_env or {})
        self.p = subprocess.Popen([env.PY, "-c", f"import hxsim.engine as e; e.worker_main({pid!r})"], env=e, cwd=scratch,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("HXSIM_DEBUG") else subprocess.DEVNULL, text=True,
                                  start_new_session=True)
        self.last = None
        self.runs = 0

    def send(self, d):
        try:
            self.p.stdin.write(json.dumps(d) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass

    def recv(self):
        line = self.p.stdout.readline()
        return json.loads(line) if line else None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


class Harness(Exception):
    pass


def one_shot(pid, scratch, msg, timeout, extra_env=None):
    """Run one command in a fresh process; returns (reply or None, returncode)."""
    w = Worker(pid, scratch, extra_env)
    timer = threading.Timer(timeout, w.kill)
    timer.daemon = True
    timer.start()
    try:
        r = w.recv()
        if not r or not r.get("ready"):
            return None, w.p.poll()
        w.send(msg)
        r = w.recv()
        if r is None:
            w.p.wait()
            return None, w.p.returncode
        return r, 0
    finally:
        timer.cancel()
        w.kill()


def load_known(pid):
    p = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def check(pid, tier, base, nproc=8, max_runs=None, cap=None, quiet=False):
    t0 = time.monotonic()
    prop = load_prop(pid)
    total = max_runs or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    cap = cap or (getattr(prop, "QUICK_CAP", 300) if tier == "quick" else getattr(prop, "THOROUGH_CAP", 3600))
    group = getattr(prop, "GROUP", 1)
    scratch = env.scratch()
    chunk = max(group, getattr(prop, "CHUNK", 4 * group))
    chunks = [list(range(i, min(i + chunk, total))) for i in range(0, total, chunk)]
    # determinism: the first runs are executed again by another process under another hash seed
    ndet = min(total, getattr(prop, "DET", max(group, min(16, total // 8 or 1))))
    rerun_chunks = [list(range(i, min(i + chunk, ndet))) for i in range(0, ndet, chunk)]
    lock = threading.Lock()
    S = {"next": 0, "rnext": 0, "results": {}, "rerun": {}, "errors": [], "deaths": [], "stop": False}
    sample_ks = set(range(0, total, max(1, total // 3)))

    def loop(wi):
        w = None
        deaths = 0
        hashseed = {"PYTHONHASHSEED": str(wi % 3)}
        while True:
            with lock:
                if S["stop"] or time.monotonic() - t0 > cap:
                    break
                if S["next"] < len(chunks):
                    ks, rer = chunks[S["next"]], False
                    S["next"] += 1
                elif S["rnext"] < len(rerun_chunks):
                    ks, rer = rerun_chunks[S["rnext"]], True
                    S["rnext"] += 1
                else:
                    break
            if w is not None and w.runs >= getattr(prop, "RECYCLE", 10 ** 9):    # bounds its memory
                w.kill()
                w = None
            if rer and w is not None:   # a fresh interpreter with a different hash seed
                w.kill()
                w = None
                hashseed = {"PYTHONHASHSEED": str(101 + wi)}
            if w is None:
                w = Worker(pid, scratch, hashseed)
                r = w.recv()
                if not r or not r.get("ready"):
                    rc = w.p.wait()
                    with lock:
                        S["errors"].append(f"worker did not start (rc {rc})")
                        S["stop"] = True
                    break
            w.runs += len(ks)
            w.send({"cmd": "runs", "ks": ks, "base": base, "tier": tier, "sample": sorted(sample_ks)})
            cur = None
            watchdog = threading.Timer(max(30.0, cap - (time.monotonic() - t0) + 60), w.kill)
            watchdog.daemon = True
            watchdog.start()
            while True:
                r = w.recv()
                if r is None:
                    rc = w.p.wait()
                    w.kill()
                    w = None
                    deaths += 1
                    with lock:
                        S["deaths"].append((cur, rc))
                        if deaths > 3:
                            S["stop"] = True
                    break
                if "start" in r:
                    cur = r["start"]
                    continue
                if "done" in r:
                    break
                if "error" in r:
                    with lock:
                        S["errors"].append(f"run {cur}: {r['error']}")
                        S["stop"] = True
                    break
                with lock:
                    (S["rerun"] if rer else S["results"])[r["k"]] = r
                    if r.get("violation"):
                        S["stop"] = True
                if S["stop"]:
                    break
            watchdog.cancel()
            if S["stop"]:
                break
        if w is not None:
            w.kill()

    ths = [threading.Thread(target=loop, args=(i,)) for i in range(min(nproc, max(1, len(chunks))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    wall = time.monotonic() - t0
    res = S["results"]
    bad = [r for _, r in sorted(res.items()) if r.get("violation")] + [r for _, r in sorted(S["rerun"].items()) if r.get("violation")]
    out = {"violation": None, "wall": wall, "total": total, "results": res, "rerun": S["rerun"], "errors": S["errors"], "deaths": S["deaths"]}
    if bad:
        out["violation"] = bad[0]
        # prefer a reproducible one
        for cand in bad[:4]:
            rep = finish_violation(pid, prop, cand, scratch)
            if rep:
                out["replay"] = rep
                out["violation"] = cand
                break
        else:
            out["errors"].append(f"violation of run {bad[0]['k']} did not reproduce: {bad[0]['violation']}")
            out["violation"] = None
    if not out["violation"]:
        for k, rc in S["deaths"]:
            if k is None or rc is None:
                continue
            # does the run kill a fresh process again?
            trace = prop.generate(seed_of(pid, base, k), k, tier)
            r, rc2 = one_shot(pid, scratch, {"cmd": "exec", "trace": trace}, 120)
            if r is None and rc2 is not None and rc2 < 0 and -rc2 in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                v = {"kind": "process-died", "detail": f"the process died with signal {-rc2}"}
                out["violation"] = {"k": k, "seed": seed_of(pid, base, k), "violation": v, "trace": trace}
                out["replay"] = write_replay(pid, trace, v, None, seed_of(pid, base, k))
                break
            out["errors"].append(f"worker died (rc {rc}) in run {k}; alone it gave {r and r.get('violation')}, rc {rc2}")
    if not quiet:
        write_evidence(pid, prop, tier, base, out)
    return out


def write_replay(pid, trace, violation, digest, seed):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha256(json.dumps(trace, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "violation": violation, "digest": digest, "trace": trace}, f, indent=1)
    return path


def finish_violation(pid, prop, r, scratch):
    """Minimise and confirm in fresh processes; returns the replay path or None."""
    trace, v = r["trace"], r["violation"]
    m, _ = one_shot(pid, scratch, {"cmd": "minimise", "trace": trace, "kind": v["kind"], "budget": 45}, 150)
    if m and m.get("violation"):
        trace2, v2 = m["trace"], m["violation"]
    else:
        trace2, v2 = trace, v
    for t, vv in ((trace2, v2), (trace, v)):
        c, _ = one_shot(pid, scratch, {"cmd": "exec", "trace": t}, 200)
        if c and c.get("violation") and c["violation"]["kind"] == vv["kind"]:
            return write_replay(pid, t, c["violation"], c["digest"], r["seed"])
    return None


def write_evidence(pid, prop, tier, base, out):
    res = [r for _, r in sorted(out["results"].items())]
    wall = max(out["wall"], 1e-6)
    stats = {}
    states, digests = set(), set()
    sim = 0.0
    for r in res:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
        states.update(r["states"])
        sim += r["sim_time"]
        if r["nontrivial"]:
            digests.add(r["digest"])
    mism = [k for k, r in out["rerun"].items() if k in out["results"] and r["digest"] != out["results"][k]["digest"]]
    both = [k for k in out["rerun"] if k in out["results"]]
    out["mismatch"] = mism
    faults = {k[6:]: n for k, n in stats.items() if k.startswith("fault:")}
    samples = []
    for r in res:
        if "trace" in r and len(samples) < 3:
            samples.append({"seed": r["seed"], "trace": prop.sample(r["trace"]) if hasattr(prop, "sample") else r["trace"], "digest": r["digest"]})
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len(digests),
        "rule": prop.RULE,
        "samples": samples,
        "seeds": len(res),
        "runs_per_hour": round(len(res) / wall * 3600),
        "seeds_per_hour": round(len(res) / wall * 3600),
        "simulated_seconds": round(sim, 6),
        "faults_fired": faults,
        "events": {k: n for k, n in stats.items() if not k.startswith("fault:")},
        "distinct_states": len(states),
        "distinct_states_measure": getattr(prop, "STATE_MEASURE", "hash of the observed state after each event"),
        "components_real": prop.REAL,
        "components_stub": prop.STUB,
        "determinism_reruns": len(both),
        "determinism_mismatches": len(mism),
    }
    ev = {"property": pid, "tier": tier, "seed": base, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(out["wall"], 2), "violations": 1 if out["violation"] else 0}
    if out["violation"]:
        cov["violation"] = out["violation"]["violation"]
        cov["replay"] = out.get("replay")
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(env.VERIF, "evidence", f"{pid}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay_file(path):
    d = json.load(open(path))
    pid = d["property"]
    c, rc = one_shot(pid, env.scratch(), {"cmd": "exec", "trace": d["trace"]}, 600)
    if c is None:
        if rc is not None and rc < 0:
            print(f"process died with signal {-rc}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print("replay: no answer")
        return 2
    if c.get("error"):
        print(c["error"])
        return 2
    if c.get("violation"):
        same = d.get("digest") in (None, c["digest"])
        print(f"{c['violation']['kind']}: {c['violation']['detail']}")
        print("replayed exactly" if same else f"replayed with a different event log ({c['digest']} instead of {d.get('digest')})")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"replay of {path}: property {pid} held")
    return 0
