#!/usr/bin/env python3
"""Check one property by seeded deterministic simulation, or replay a recorded violation.

  run.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--procs N]
  run.py --replay replays/C01-....json
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hxsim import engine, env  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="check that the library imports and the storage simulator compiles")
    a = ap.parse_args()
    if a.setup:
        from hxsim import simdisk
        import subprocess
        simdisk.build(env.scratch())
        return subprocess.run([env.PY, "-c", "import hxsim.env as e; e.load_repo()"], env=env.child_env(env.scratch()), cwd=env.scratch()).returncode
    if a.replay:
        return engine.replay_file(a.replay)
    print(f"seed {a.seed}", flush=True)
    out = engine.check(a.property, a.tier, a.seed, a.procs, a.runs, a.cap)
    n = len(out["results"])
    if out["violation"]:
        v = out["violation"]
        print(f"run {v['k']} seed {v['seed']}: {v['violation']['kind']}: {' '.join(v['violation']['detail'].split())}")
        print(f"VIOLATION property={a.property} replay={out['replay']}")
        return 1
    for f in engine.load_known(a.property):
        if any(f["id"] in r.get("known", ()) for r in out["results"].values()):
            print(f"KNOWN-FINDING: property={a.property} {f['what']}")
    if out["errors"]:
        for e in out["errors"]:
            print("ERROR", e)
        return 2
    if n == 0:
        print("ERROR no run completed")
        return 2
    if out.get("mismatch"):
        print(f"ERROR determinism: runs {out['mismatch']} gave another event log when repeated")
        return 2
    print(f"property {a.property}: held on {n} runs in {out['wall']:.1f} s")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
