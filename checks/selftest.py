#!/usr/bin/env python3
"""Self-test of the runtime the harnesses run on (not a check of a property)."""
import json
import sys
import vlib

GOOD = ["mutex", "recursive", "timed", "spin", "spiny", "shared", "once", "cvany", "flag", "flagy", "flags", "fence", "tls"]
BAD = ["bad_relaxed", "bad_race", "bad_lostwake", "bad_deadlock", "bad_forever", "bad_uaf", "bad_rdlock"]


def main():
    c = vlib.Check("SELF", "quick")
    try:
        b = c.build("self", ["selftest_h.cpp"])
        ok = True
        for r, w in zip(c.explore(b, [{"w": w} for w in GOOD + BAD], runs=3000, rand=300, pb=2, ms=4000), GOOD + BAD):
            evs = [t["ev"] for t in r["traces"]]
            bad = [e for ev in evs for e in ev if e["k"] in ("bad", "stuck") or e.get("leak")]
            good = not bad and evs and all(ev and ev[-1]["k"] == "end" for ev in evs)
            print(w, r["runs"], "clean" if good else json.dumps(bad[:1])[:100])
            ok = ok and good == (w in GOOD)
        return 0 if ok else 1
    finally:
        c.close() if hasattr(c, "close") else None


if __name__ == "__main__":
    sys.exit(main())
