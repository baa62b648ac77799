"""Building and running future programs (PcFuture.tla)."""
import json
import os

SRC = ["fut_main.cpp", "fut_val.cpp", "fut_mov.cpp", "fut_ref.cpp", "fut_void.cpp"]


def build(c, std="gnu++17", defs=()):
    return c.build("fut", SRC, std=std, defs=defs)


def progfile(c, progs, name):
    pf = os.path.join(c.work, name)
    with open(pf, "w") as f:
        for p in progs:
            f.write(json.dumps({k: p[k] for k in ("kind", "nn", "ops", "pre", "threads", "post")}) + "\n")
    return pf


def conform(c, progs, std="gnu++17", defs=(), **opts):
    b = build(c, std, defs)
    pf = progfile(c, progs, "progs.ndjson")
    return c.conformance(b, "PcFutureTrace.tla", "PcFutureTrace.cfg", progs, header=lambda p, pi: {"p": pi + 1},
                         env={"PROGS": pf}, **opts)
