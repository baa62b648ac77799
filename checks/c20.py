#!/usr/bin/env python3
"""C20: unique_function."""
import ufprogs
import vlib


def run(c):
    c.assumptions += ["moved from objects are only destroyed, assigned to or tested, never invoked",
                      "histories of one thread (unique_function is not a concurrent object)"]
    c.model_check("UFuncMC.tla", "UFuncMC.cfg", "all histories of 4 operations on 3 slots: one owner, destroyed once, no orphan")
    b = c.build("ufunc", ["ufunc_h.cpp"])
    t = c.thorough
    c.conformance(b, "UFuncTrace.tla", "UFuncTrace.cfg", ufprogs.directed(t), runs=1, rand=0, ms=1000)
    for s in range(vlib.SEED, vlib.SEED + (12 if t else 1)):
        c.conformance(b, "UFuncTrace.tla", "UFuncTrace.cfg", ufprogs.rand(s, 8000 if t else 3000), runs=1, rand=0, ms=1000)


if __name__ == "__main__":
    vlib.main("C20", run)
