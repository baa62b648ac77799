"""Programs over unique_function slots: every short history over representative kinds, and random long ones."""
import itertools
import random

SIGS = ("val", "void", "ref", "cref", "rref", "mo", "mem", "cmem")
OWNED = ["small", "full", "over", "big", "thr", "al", "mon", "mob", "std", "uf"]
NULL = ["nfp", "null", "nstd"]
KINDS = {s: OWNED + ["fp", "rw"] + NULL for s in SIGS}
KINDS["mem"] = ["mfp", "mdp", "nmfp", "nmdp", "null"]
KINDS["cmem"] = ["mfp", "nmfp", "null"]
CANTHROW = {"over", "big", "thr", "al", "mob"}
NSLOT = 5
NULLS = {"nfp", "nmfp", "nmdp", "null", "nstd"}


class B:
    """builds one program, following which slots may be invoked"""

    def __init__(self, sg):
        self.sg, self.ops, self.f = sg, [], 0
        self.fp = 0
        self.sl = [0] * NSLOT

    def add(self, o, a=0, b=0, **k):
        d = {"o": o, "i": len(self.ops) + 1, "a": a, "b": b, "f": 0, "kd": "", "thr": 0, "lv": 0, "vr": 0}
        d.update(k)
        self.ops.append(d)

    def mk(self, a, kd, thr=0, lv=0, vr=0):
        if kd in ("fp", "mfp", "mdp"):
            if self.fp >= (4 if self.sg in ("mem", "cmem") else 12):
                return
            self.fp += 1
        if kd in ("mon", "mob", "std", "uf", "rw") or kd in NULLS:
            lv = 0
        if thr and (kd not in CANTHROW or kd in ("over", "big", "al") and not lv):
            thr = 0      # only copying or throwing moves can fail
        if thr and vr == 2:
            vr = 0
        if kd not in NULLS:
            self.f += 1
        self.add("mk", a, f=0 if kd in NULLS else self.f, kd=kd, thr=thr, lv=lv, vr=vr)
        if not thr:
            self.sl[a] = 0 if kd in NULLS else self.f

    def mv(self, a, b, vr=0):
        if a == b:
            return
        self.add("mv", a, b, vr=vr)
        self.sl[b] = self.sl[a]
        self.sl[a] = 0 if self.sl[a] == 0 else -1

    def op(self, o, a, b=0, vr=0, thr=0):
        if o == "mv":
            self.mv(a, b, vr)
        elif o == "call":
            if self.sl[a] != -1:
                self.add("call", a, thr=thr if self.sl[a] > 0 and self.sg != "mem" else 0)
        elif o == "sm":
            if self.sl[a] != -1:
                self.add("sm", a, b)
                if a != b:
                    self.sl[b] = self.sl[a]
                    self.sl[a] = 0 if self.sl[a] == 0 else -1
        elif o == "swap":
            self.add("swap", a, b)
            self.sl[a], self.sl[b] = self.sl[b], self.sl[a]
        elif o == "smv":
            # leaves an unspecified but destructible value
            self.add("smv", a)
            self.sl[a] = 0 if self.sl[a] == 0 else -1
        elif o == "drop":
            self.add("drop", a, vr=vr)
            self.sl[a] = 0
        elif o == "bool":
            self.add("bool", a)

    def prog(self):
        return {"sg": self.sg, "ops": self.ops}


def directed(thorough):
    out = []
    for sg in SIGS:
        for kd in KINDS[sg]:
            for lv, vr in itertools.product((0, 1), (0, 1, 2)):
                b = B(sg)
                b.mk(0, kd, lv=lv, vr=vr)
                b.op("bool", 0)
                b.op("call", 0)
                b.op("call", 0)
                b.op("mv", 0, 1)
                b.op("call", 1)
                b.op("bool", 1)
                b.mk(2, kd)
                b.op("swap", 1, 2)
                b.op("call", 1)
                b.op("call", 2)
                b.op("sm", 2, 3)
                b.op("call", 3, thr=1)
                b.op("call", 3)
                b.op("swap", 3, 3)
                b.op("call", 3)
                b.op("mv", 3, 1, 1)
                b.op("call", 1)
                b.op("drop", 1, vr=vr % 2)
                b.op("call", 1)
                b.op("bool", 1)
                out.append(b.prog())
                if lv == 0 and vr == 0:
                    b = B(sg)
                    b.mk(0, kd)
                    b.op("smv", 0)
                    b.mk(0, kd)
                    b.op("call", 0)
                    out.append(b.prog())
                for kd2 in ("small", "big"):
                    if kd not in CANTHROW or sg in ("mem", "cmem"):
                        continue
                    b = B(sg)
                    b.mk(0, kd2)
                    b.mk(0, kd, thr=1, lv=lv, vr=vr)
                    b.op("bool", 0)
                    b.op("call", 0)
                    out.append(b.prog())
    # every pair of kinds over every pair of short continuations
    steps = [("mv", 0, 1), ("swap", 0, 1), ("sm", 0, 1), ("sm", 0, 0), ("drop", 1, 0), ("mv", 1, 0), ("sm", 1, 2), ("mv", 0, 2)]
    for sg in SIGS if thorough else ("val", "ref", "mem"):
        for k1, k2 in itertools.product(KINDS[sg], repeat=2):
            for s1, s2 in itertools.product(steps, repeat=2):
                if not thorough and ((KINDS[sg].index(k1) * 5 + KINDS[sg].index(k2)) + steps.index(s1) * 8 + steps.index(s2)) % 9:
                    continue
                b = B(sg)
                b.mk(0, k1)
                b.mk(1, k2)
                for s in (s1, s2):
                    b.op(*s)
                for a in range(3):
                    b.op("call", a)
                    b.op("bool", a)
                out.append(b.prog())
    return out


def rand(seed, n):
    r = random.Random("uf%s" % seed)
    out = []
    for j in range(n):
        sg = SIGS[j % len(SIGS)]
        b = B(sg)
        for _ in range(r.randint(6, 24)):
            x = r.random()
            if x < .3 and b.f < 15:
                b.mk(r.randrange(NSLOT), r.choice(KINDS[sg]), thr=int(r.random() < .2), lv=int(r.random() < .3), vr=r.randrange(3))
            else:
                b.op(r.choice(["mv", "mv", "call", "call", "call", "sm", "swap", "drop", "bool", "smv"]), r.randrange(NSLOT),
                     r.randrange(NSLOT), r.randrange(2), int(r.random() < .15))
        out.append(b.prog())
    return out
