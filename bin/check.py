#!/usr/bin/env python3
"""Decide one property on /repo's current tree.   check.py ID   (VERIF_SEED, VERIF_TIER)

Layers (which of them a property has is in bin/plan.py):
  verus   functions extracted mechanically from /repo, verified against the contracts of
          /verif/verus (unbounded, all inputs, all iterations)
  kani    contract harnesses on the real crate (loop-free or width-bounded: complete;
          those over arrays of a fixed small length: bounded)
  native  the same contract harnesses executed on the real crate with its real
          dependencies: replay of counterexamples, and a seeded search for a failing input
"""
import json, os, re, subprocess, sys, time, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, layers

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    p = plan.PLAN[pid]
    ctx = layers.Ctx(pid, tier, seed, p, t0)
    ctx.run()
    sys.exit(ctx.finish())

if __name__ == "__main__":
    main()
