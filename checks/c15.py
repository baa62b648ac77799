#!/usr/bin/env python3
"""C15: latch."""
import itertools
import vlib


def op(o, n=None):
    r = {"o": o}
    if n is not None:
        r["n"] = n
    return r


def programs(thorough):
    P = []

    def add(count, threads, post=(), pre=(), **opt):
        P.append({"count": count, "threads": [[op(*x) if isinstance(x, tuple) else op(x) for x in t] for t in threads],
                  "pre": [op(*x) if isinstance(x, tuple) else op(x) for x in pre],
                  "post": [op(*x) if isinstance(x, tuple) else op(x) for x in post], "opt": opt})

    DEL = ("del",)
    # destruction by a thread that was just released, others still on their way out
    add(1, [["wait", "del"], ["cd"]])
    add(1, [["wait", "del"], [("cd", 1)]], spur=1)
    add(2, [["cdw", "del"], ["cd"]])
    add(2, [["cdw", "del"], ["cdw"]], spur=1)
    add(2, [["wait", "del"], [("cd", 2)]])
    add(2, [["wait", "del"], ["cd"], ["cd"]])
    add(2, [["wait", "del"], ["cdw"], ["cdw"]])
    add(3, [["cdw", "del"], ["cdw"], ["cd"]])
    add(3, [["cdw", "del"], ["cdw"], ["cdw"]])
    add(3, [["wait", "del"], ["cd"], [("cd", 2)]])
    # destroyed by somebody else than the waiter, who is known to be inside
    add(1, [["wait"], [("ent", 1), "cdw", "del"]])
    add(1, [["wait"], ["wait"], [("ent", 1), ("ent", 2), "cdw", "del"]])
    add(2, [["wait"], ["cdw"], [("ent", 1), "cdw", "del"]])
    add(1, [["wait"], ["wait", "del"], [("ent", 1), "cd"]])
    add(2, [["wait"], ["wait", "del"], [("ent", 1), ("ent", 2), ("cd", 2)]], spur=1)
    # released exactly at zero
    add(0, [["wait"], ["rdy"]], DEL)
    add(0, [["wait", "del"]])
    add(0, [["rdy", "wait", "rdy"], ["wait"]], DEL)
    add(1, [["wait", "rdy"], ["rdy", "cd", "rdy"]], DEL)
    add(1, [["wait"], ["wait"], ["cd"]], DEL)
    add(1, [["wait"], ["wait"], ["cdw"]], DEL)
    add(2, [["wait"], ["cdw"], ["cdw"]], DEL)
    add(2, [["wait"], ["cd", "rdy"], ["cd", "rdy"]], DEL)
    add(2, [["rdy", "wait", "rdy"], ["cd", "rdy", "cd", "rdy"]], DEL)
    add(3, [["wait"], ["cdw"], [("cd", 2), "rdy"]], DEL)
    add(5, [["wait", "rdy"], [("cd", 3), "rdy"], [("cd", 2), "wait"]], DEL)
    add(3, [["rdy", "rdy", "rdy"], ["cd", "cd", "cd"], ["wait"]], DEL)
    add(2, [["cd", "wait"], ["cd", "wait"], ["rdy", "wait"]], DEL)
    add(1, [["wait", "wait", "rdy"], ["cd", "wait"]], DEL)
    # counting down by zero is a no-op, also when already open
    add(1, [["wait", "rdy"], [("cd", 0), "rdy", "cd", ("cd", 0), "rdy"]], DEL)
    add(1, [["wait"], ["rdy"]])                      # never counted down: must stay blocked
    add(2, [["cdw"], ["wait"], ["rdy"]])
    # sequential
    add(2, [], ["rdy", "cd", "rdy", "cd", "rdy", "wait", "rdy", "del"])
    add(3, [], ["rdy", ("cd", 2), "rdy", "cdw", "rdy", "wait", "del"])
    if thorough:
        for cnt in (1, 2, 3, 4):
            for a, b, c in itertools.product(["wait", "cdw", "cd", "rdy"], repeat=3):
                total = [a, b, c].count("cd") + [a, b, c].count("cdw")
                if total > cnt:
                    continue
                rest = cnt - total
                add(cnt, [[a], [b], [c], ([("cd", rest)] if rest else []) + ["rdy"]], DEL, spur=1)
        add(4, [["cdw", "del"], ["cdw"], ["cdw"], ["cd"]])
        add(4, [["cdw", "del"], ["cdw"], ["cdw"], ["cdw"]])
    return P


def run(c):
    c.assumptions += ["user obeys the documented preconditions: operations start while the latch exists, "
                      "destruction starts after some wait returned, counter never goes below zero",
                      "threads are explored as sequentially consistent interleavings; the C++ memory model is "
                      "covered by the vector clock race detector"]
    c.model_check("LatchMC.tla", "LatchMC.cfg", "latch, 3 threads x 2 operations, count <= 2: safety and release of waiters")
    b = c.build("latch", ["latch_h.cpp"])
    c.conformance(b, "LatchTrace.tla", "LatchTrace.cfg", programs(c.thorough), header=lambda p, pi: {"count": p["count"]},
                  limit_traces=None if c.thorough else 300,
                  pb=4 if c.thorough else 3, runs=200000 if c.thorough else 20000,
                  rand=20000 if c.thorough else 500, ms=20000 if c.thorough else 3000, spur=0)


if __name__ == "__main__":
    vlib.main("C15", run)
