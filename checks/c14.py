#!/usr/bin/env python3
"""C14: pool shutdown"""
import json
import os
import poolprogs
import vlib


def run(c):
    c.assumptions += ["pool is destroyed only after every attached thread returned from attach()",
                      "sequentially consistent interleavings; weak memory is covered by the race detector"]
    progs = poolprogs.c14(c.thorough)
    pf = os.path.join(c.work, "progs.ndjson")
    with open(pf, "w") as f:
        for p in progs:
            if c.thorough or not p.get("heavy"):
                f.write(json.dumps(p) + "\n")
    c.model_check("PoolMC.tla", "PoolMC.cfg", "all interleavings of the harness programs on the specification: "
                  "invariants, no deadlock", env={"PROGS": pf}, timeout=3000 if c.thorough else 400)
    b = c.build("pool", ["pool_h.cpp"])
    c.conformance(b, "PoolTrace.tla", "PoolTrace.cfg", progs, header=lambda p, pi: {"n": p["n"], "single": p["single"]},
                  limit_traces=3000 if c.thorough else 120,
                  pb=3 if c.thorough else 2, runs=400000 if c.thorough else 30000,
                  rand=20000 if c.thorough else 1000, ms=60000 if c.thorough else 4000)
    # condition variables may wake up spuriously
    c.conformance(b, "PoolTrace.tla", "PoolTrace.cfg", progs, header=lambda p, pi: {"n": p["n"], "single": p["single"]},
                  limit_traces=500 if c.thorough else 30, pb=2, runs=50000 if c.thorough else 3000,
                  rand=3000 if c.thorough else 200, ms=20000 if c.thorough else 1000, spur=1)


if __name__ == "__main__":
    vlib.main("C14", run)
