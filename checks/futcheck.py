"""The checks of the properties decided with PcFuture.tla."""
import random

import futgen
import futlib
import futmatrix
import futprogs
import vlib

# emphasis of the random programs of a property (factors on the generator's weights)
W = {
    "C01": {"set": 3, "sete": 2, "call": 2, "task": 2, "shr": 2, "get": 2, "ithen": 2},
    "C02": {"isr": 4, "get": 2, "wait": 2, "copy": 2, "shr": 2, "tw": 2, "twait": 2},
    "C03": {"wait": 6, "get": 3, "copy": 2, "dropp": 2},
    "C04": {"then": 2, "next": 2, "note": 4, "shr": 2, "ithen": 2},
    "C05": {"then": 3, "next": 3, "ithen": 3, "sete": 2, "shr": 2},
    "C06": {"then": 2, "next": 2, "task": 2.5, "async": 2, "shr": 2},
    "C07": {"dropp": 4, "dropk": 4, "xdrop": 4, "movep": 3, "mvk": 2, "task": 1.5},
    "C08": {"drop": 4, "awaiten": 2, "task": 1.5, "async": 1.5},
    "C09": {"det": 6, "drop": 3},
    "C10": {"awaiten": 5, "drop": 3, "mkp": 1.5, "movep": 2},
    "C11": {"all": 6, "geta": 4, "thena": 3, "mkr": 2},
    "C12": {"any": 6, "geta": 4, "thena": 3, "mkr": 2},
    "C16": {"tw": 6, "twait": 6, "cpw": 4, "waitfor": 6},
    "C17": {"async": 4, "xrun": 2, "xdrop": 1.5, "note": 2},
    "C18": {"drop": 2, "dropp": 2, "xdrop": 2, "mkr": 2, "all": 2, "any": 2},
    "C19": {"task": 5, "call": 4, "mvk": 4, "swapk": 4, "validk": 4, "getfk": 3, "async": 3, "dropk": 2},
    "C21": {"mkp": 1.5, "set": 1.5, "task": .5},
    "C22": {"valid": 4, "mv": 4, "copy": 3, "shr": 2, "getf": 3, "getfk": 3, "movep": 3, "mvk": 2, "det": 2},
}
# built without the library's assertions: they read the state and so synchronise more than a release build does
NDEBUG = {"C02", "C03", "C04", "C11", "C12", "C16", "C21"}
CO = {"C21": 4.0}
MISUSE = {"C22": .5, "C01": .3, "C19": .3}


def weights(prop):
    w = {k: futgen.BASE[k] * f for k, f in W[prop].items()}
    if prop in CO:
        w["co"] = CO[prop]
    return w


def cost(p):
    return (len(p["threads"]), sum(len(t) for t in p["threads"]) + len(p["ops"]) / 8)


def run(c):
    prop = c.prop
    std = "gnu++20" if prop == "C21" else "gnu++17"
    defs = ["-DNDEBUG"] if prop in NDEBUG else []
    t = c.thorough
    c.assumptions += [
        "the user obeys the library's contracts: one thread at a time uses a unique handle, promise or task; "
        "shared_future copies are used by at most one modifying thread",
        "threads are explored as sequentially consistent interleavings at synchronisation operations; the C++ memory "
        "model is covered by the runtime's happens-before race detector",
        "posting to the harness executors does not throw; memory allocation does not fail",
    ]
    progs = futprogs.directed(prop, t)
    # the specification itself: every interleaving of (a sample of) the programs
    small = sorted(progs, key=cost)
    if not t:
        seen, pick = set(), []
        rnd = random.Random(vlib.SEED)
        rnd.shuffle(small)
        for p in small:
            if len(p["threads"]) <= 3 and p["text"][:14] not in seen:
                seen.add(p["text"][:14])
                pick.append(p)
        small = pick[:14]
    pf = futlib.progfile(c, small, "mc.ndjson")
    c.model_check("PcFutureMC.tla", "PcFutureMC.cfg",
                  "%d directed programs, all interleavings of the specification: invariants, action properties, no "
                  "deadlock" % len(small), env={"PROGS": pf}, timeout=6000 if t else 400, heap="8g")
    # directed programs on the real code
    futlib.conform(c, progs, std=std, defs=defs, limit_traces=400 if t else 25, pb=3 if t else 2, runs=40000 if t else 1200,
                   rand=4000 if t else 120, ms=20000 if t else 1200)
    if prop in ("C03", "C16") or t:
        # condition variables may wake up spuriously
        futlib.conform(c, progs, std=std, defs=defs, limit_traces=100 if t else 10, pb=2, runs=5000 if t else 300,
                       rand=500 if t else 50, ms=5000 if t else 500, spur=1)
    w = weights(prop)
    kw = {"misuse": MISUSE.get(prop, .15)}
    for seed in range(vlib.SEED, vlib.SEED + (10 if t else 1)):
        # random and systematic histories of one thread, and random programs of two and three threads
        seq = futgen.programs("%s-%d" % (prop, seed), 1500 if t else 900, 0, w=w, **kw)
        if seed == vlib.SEED:
            seq += futmatrix.programs(prop, t)
        for i in range(0, len(seq), 4000):
            futlib.conform(c, seq[i:i + 4000], std=std, defs=defs, runs=1, rand=0, ms=1000)
        futlib.conform(c, futgen.programs("%s-%d" % (prop, seed), 400 if t else 150, 2, w=w, **kw), std=std, defs=defs,
                       limit_traces=60 if t else 15, pb=2, runs=3000 if t else 250, rand=300 if t else 50, ms=3000 if t else 600)
        futlib.conform(c, futgen.programs("%s-%d" % (prop, seed), 200 if t else 30, 3, w=w, **kw), std=std, defs=defs,
                       limit_traces=60 if t else 15, pb=2, runs=3000 if t else 250, rand=500 if t else 80, ms=3000 if t else 600)
        if t and c.violations:
            break


def main(prop):
    vlib.main(prop, run)
