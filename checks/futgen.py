"""Random programs. A handle slot has one owner (a thread or a function body) at a time, shared_futures
may be shared by threads for reading, so that the programs themselves are free of misuse races."""
import random

import futlang

BASE = {
    "mkp": 3, "mkr": 1, "task": 1, "async": 1.5, "then": 4, "next": 4, "ithen": 1, "note": 2, "shr": 2, "copy": 1.5,
    "mv": .7, "det": .8, "drop": 2, "get": 1.5, "wait": .6, "isr": 1, "valid": .5, "set": 4, "sete": 1.5, "dropp": 1.5,
    "movep": .5, "awaiten": 1, "getf": .6, "call": 3, "dropk": .8, "mvk": .4, "swapk": .3, "validk": .3, "getfk": 1,
    "all": 1, "any": 1, "geta": .7, "thena": .8, "tw": .5, "twait": .7, "cpw": .3, "waitfor": .4, "xrun": 3,
    "xdrop": .6, "co": 0, "aw": 0,
}


class Gen:
    def __init__(self, rnd, kind, w=None, conc=2, size=6, misuse=0.15):
        self.r = rnd
        self.kind = kind
        self.w = dict(BASE)
        self.w.update(w or {})
        self.conc = conc
        self.size = size
        self.misuse = misuse
        self.n = 0
        self.slots = {}   # name -> dict(kind, owner, st)   kind F S P K C W ; st: ok / no / unk
        self.nodes = 0
        self.tk = {}
        self.ck = {}

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def add(self, kind, name, owner, st="ok"):
        self.slots[(kind, name)] = {"owner": owner, "st": st}

    def have(self, kind, owner, st=("ok",)):
        out = []
        for (k, n), d in self.slots.items():
            if k == kind and d["st"] in st and (d["owner"] == owner or (kind == "S" and d["owner"] == "sh")):
                out.append(n)
        return out

    def pick(self, kind, owner, st=("ok",)):
        l = self.have(kind, owner, st)
        return self.r.choice(l) if l else None

    def fut(self, owner, allow_bad=True):
        """(ak, name) of a future to operate on"""
        st = ("ok", "no", "unk") if allow_bad and self.r.random() < self.misuse else ("ok",)
        c = [("F", n) for n in self.have("F", owner, st)] + [("S", n) for n in self.have("S", owner, st)]
        return self.r.choice(c) if c else None

    def use(self, ak, n, inval=True):
        if ak == "F" and inval:
            self.slots[("F", n)]["st"] = "no" if self.slots[("F", n)]["st"] != "unk" else "unk"

    def executor(self):
        x = self.r.random()
        if x < .5:
            return " xi=1" if self.r.random() < .3 else ""
        if x < .75:
            return " x=q1"
        if x < .85:
            return " x=q2"
        return " x=inl" if x < .95 else " x=nul"

    def outcome(self, owner, ctx, name, fut_ok=True):
        """result of a function and the nested operations; slots used are given away to the function"""
        r = self.r
        x = r.random()
        res, kind = "", "F"
        if x < .15:
            res = " r=e"
        elif fut_ok and x < .5:
            cand = [(k, n) for k in "FS" for n in self.have(k, owner) if self.slots[(k, n)]["owner"] == owner]
            y = r.random()
            if y < .12:
                res = " r=inv"
            elif y < .2:
                res, kind = " r=sinv", "S"
            elif y < .32:
                res = " r=fe"
            elif cand:
                k, n = r.choice(cand)
                self.slots[(k, n)]["owner"] = "fn"
                self.slots[(k, n)]["st"] = "unk"
                if k == "F":
                    res = " r=fut ro=%s" % n
                else:
                    res, kind = " r=sfut ro=%s%s" % (n, " lv=1" if r.random() < .3 else ""), "S"
        nest = []
        if ctx != "fn" and r.random() < .3:
            # a nested producer or consumer operation on a slot handed to the function
            for _ in range(r.randint(1, 2)):
                y = r.random()
                ps = self.have("P", owner)
                if y < .5 and ps:
                    p = r.choice(ps)
                    self.slots[("P", p)].update(owner="fn", st="unk")
                    nest.append(r.choice(["set %s", "sete %s", "dropp %s", "set %s"]) % p)
                    continue
                fs = self.have("F", owner)
                if y < .8 and fs:
                    f = r.choice(fs)
                    self.slots[("F", f)].update(owner="fn", st="unk")
                    c = self.name("c")
                    self.add("F", c, "fn", "unk")
                    nest.append(r.choice(["drop %s" % f, "%s=then %s" % (c, f), "%s=next %s x=q1" % (c, f),
                                          "det %s %s" % (f, c)]))
                elif y < .9:
                    c = self.name("a")
                    self.add("F", c, "fn", "unk")
                    nest.append("%s=async%s" % (c, self.executor()))
        if r.random() < .15 and "lv" not in res:
            res += " lv=1"
        if nest:
            res += " {%s}" % "; ".join(nest)
        return res, kind

    def op(self, owner, conc):
        """one random operation of context owner, or None"""
        r = self.r
        names = list(self.w)
        o = r.choices(names, [self.w[k] for k in names])[0]
        nn = self.name
        if o in ("mkp", "mkr", "task", "async") and self.nodes > 9:
            return None
        if o == "mkp":
            v = r.choice(["", "", "canc", "canc", "alloc", "leg", "legc", "lega"])
            n = nn("p")
            self.nodes += 1
            self.add("P", n, owner)
            self.add("F", n, owner, "no" if v.startswith("leg") else "ok")
            s = "%s=mkp%s" % (n, " vr=" + v if v else "")
            if v.startswith("leg"):
                if v == "legc" or r.random() < .9:
                    s += "; getf %s %s" % (n, n)
                    self.slots[("F", n)]["st"] = "ok"
            return s
        if o == "mkr":
            n = nn("r")
            self.nodes += 1
            self.add("F", n, owner)
            return "%s=mkr%s" % (n, r.choice(["", " r=e", " r=e vr=ptr"]))
        if o == "task":
            n = nn("t")
            self.nodes += 1
            x, k = self.outcome(owner, owner, n)
            self.add("K", n, owner)
            self.tk[n] = 2 if any(z in x for z in ("r=fut", "r=inv", "r=fe")) else 3 if ("r=sfut" in x or "r=sinv" in x) else 1
            if self.tk[n] == 1 and "vr=" not in x and r.random() < .25:
                x += " vr=two"
                self.tk[n] = 4
            s = "%s=task%s" % (n, x)
            if r.random() < .85:
                f = nn("f")
                self.add(k, f, owner)
                s += "; getfk %s %s" % (n, f)
            return s
        if o == "async":
            n = nn("a")
            self.nodes += 1
            x, k = self.outcome(owner, owner, n)
            self.add(k, n, owner)
            return "%s=async%s%s%s" % (n, self.executor(), r.choice(["", "", " big=1", " vr=two", " vr=pm"]), x)
        if o in ("then", "next", "ithen"):
            if self.nodes > 12:
                return None
            f = self.fut(owner)
            if not f:
                return None
            ak, s = f
            bad = self.slots[f]["st"] != "ok"
            self.use(ak, s)
            n = nn("c")
            self.nodes += 1
            if o == "ithen":
                self.add("F", n, owner, "unk" if bad else "ok")
                self.add("P", n, "fn", "unk")
                x = r.choice(["", " {set %s}" % n, " {sete %s}" % n, " {dropp %s}" % n])
                k = "F"
            else:
                x, k = self.outcome(owner, owner, n)
                self.add(k, n, owner, "unk" if bad else "ok")
            if o != "next" and r.random() < .15:
                b = nn("k")
                self.add(ak, b, "fn", "unk")
                x = " keep=1 b=%s" % b + x
            if o != "ithen" and not any(z in x for z in ("r=f", "r=s", "r=i", "vr=")) and r.random() < .2:
                x = r.choice([" vr=hv", " vr=hb"]) + x
            return "%s=%s.%s %s%s%s" % (n, o, ak, s, self.executor(), x)
        if o == "note":
            f = self.fut(owner)
            if not f or self.nodes > 12:
                return None
            self.nodes += 1
            n = nn("n")
            return "%s=note.%s %s%s%s" % (n, f[0], f[1], self.executor(), r.choice(["", " lv=1"]))
        if o in ("shr",):
            f = self.pick("F", owner)
            if not f:
                return None
            self.use("F", f)
            b = nn("s")
            self.add("S", b, owner)
            return "shr %s %s%s" % (f, b, r.choice(["", " vr=conv"]))
        if o == "copy":
            f = self.pick("S", owner, ("ok", "no", "unk") if r.random() < self.misuse else ("ok",))
            if not f:
                return None
            b = nn("s")
            self.add("S", b, owner, self.slots[("S", f)]["st"])
            return "copy.S %s %s%s" % (f, b, r.choice(["", " vr=ctor"]))
        if o in ("mv", "det"):
            f = self.fut(owner)
            if not f or self.slots[f]["owner"] == "sh":
                return None
            old = [n for n in self.have(f[0], owner, ("ok", "no", "unk")) if n != f[1] and self.slots[(f[0], n)]["owner"] == owner and not self.slots[(f[0], n)].get("fn")]
            if old and r.random() < .4 and (o == "mv" or self.slots[f]["st"] == "ok"):
                b = r.choice(old)
            else:
                b = nn("m")
            st = self.slots[f]["st"]
            if self.slots.get((f[0], b), {}).get("owner", owner) != owner:
                return None
            self.add(f[0], b, owner, st)
            if st == "ok":
                self.slots[f]["st"] = "no"
            return "%s.%s %s %s" % (o, f[0], f[1], b)
        if o == "drop":
            f = self.fut(owner)
            if r.random() < .1:
                c = self.pick("C", owner)
                if c:
                    self.slots[("C", c)]["st"] = "no"
                    return "drop.C %s" % c
            if not f or self.slots[f]["owner"] == "sh":
                return None
            self.slots[f]["st"] = "no"
            return "drop.%s %s" % f
        if o in ("get", "wait", "isr", "valid"):
            if o in ("get", "wait") and not conc and r.random() < .7:
                return None
            f = self.fut(owner)
            if not f:
                return None
            if o == "get":
                self.use(*f)
            return "%s.%s %s" % (o, f[0], f[1])
        if o in ("set", "sete", "dropp", "awaiten", "movep", "getf"):
            p = self.pick("P", owner, ("ok", "no", "unk") if r.random() < self.misuse else ("ok",))
            if not p:
                return None
            if o == "dropp":
                self.slots[("P", p)]["st"] = "no"
            if o == "getf":
                b = nn("f")
                self.add("F", b, owner, "unk")
                return "getf %s %s" % (p, b)
            if o == "movep":
                others = [q for q in self.have("P", owner, ("ok", "no")) if q != p]
                b = r.choice(others) if others and r.random() < .6 else nn("q")
                self.add("P", b, owner, self.slots[("P", p)]["st"])
                self.slots[("P", p)]["st"] = "no"
                return "movep %s %s" % (p, b)
            x = ""
            if o == "set" and self.kind in ("val", "mov") and r.random() < .1:
                x = " thr=1"
            if o == "set" and r.random() < .3:
                x += " lv=1"
            return "%s %s%s" % (o, p, x)
        if o in ("call", "dropk", "validk", "getfk", "mvk", "swapk"):
            t = self.pick("K", owner, ("ok", "no") if r.random() < self.misuse else ("ok",))
            if not t:
                return None
            if o == "dropk":
                self.slots[("K", t)]["st"] = "no"
            if o == "getfk":
                b = nn("f")
                self.add("S" if self.tk[t] == 3 else "F", b, owner, "unk")
                return "getfk %s %s" % (t, b)
            if o in ("mvk", "swapk"):
                others = [q for q in self.have("K", owner, ("ok", "no")) if q != t and self.tk[q] == self.tk[t]]
                if o == "swapk" and not others:
                    return None
                b = r.choice(others) if others and r.random() < .6 else None
                if b is None:
                    if o == "swapk":
                        return None
                    b = nn("u")
                    self.tk[b] = self.tk[t]
                    self.add("K", b, owner, "no")
                A, B = self.slots[("K", t)], self.slots[("K", b)]
                if o == "mvk":
                    B["st"], A["st"] = A["st"], "no"
                else:
                    A["st"], B["st"] = B["st"], A["st"]
                return "%s %s %s d=%d" % (o, t, b, self.tk[t])
            return "%s %s d=%d" % (o, t, self.tk[t])
        if o in ("all", "any"):
            if self.nodes > 12:
                return None
            fs = [("F", n) for n in self.have("F", owner)]
            ss = [("S", n) for n in self.have("S", owner)]
            n = nn("w")
            y = r.random()
            if y < .08:
                ins, vr = [], r.choice(["vec", "tup"])
            elif y < .4 and fs:
                ins = r.sample(fs, min(len(fs), r.randint(1, 3)))
                vr = r.choice(["vec", "it", "al"])
            elif y < .6 and ss:
                ins = [r.choice(ss) for _ in range(r.randint(1, 3))]
                vr = r.choice(["vec", "it"])
            else:
                shape = r.choice(["F", "FF", "FS", "SF", "SS", "FFF", "SFS"])
                ins, f2 = [], list(fs)
                r.shuffle(f2)
                for k in shape:
                    if k == "F":
                        if not f2:
                            return None
                        ins.append(f2.pop())
                    else:
                        if not ss:
                            return None
                        ins.append(r.choice(ss))
                vr = "tup"
            for k, m in ins:
                self.use(k, m)
            self.nodes += 1
            self.add("C", n, owner)
            self.ck[n] = [k for k, _ in ins]
            return "%s=%s [%s] ks=%s vr=%s" % (n, o, " ".join(m for _, m in ins), "".join(k for k, _ in ins), vr) \
                if ins else "%s=%s [] vr=%s" % (n, o, vr)
        if o in ("geta", "thena"):
            c = self.pick("C", owner)
            if not c or (o == "geta" and not conc and r.random() < .6):
                return None
            self.slots[("C", c)]["st"] = "no"
            bs = [nn("x") for _ in self.ck[c]]
            if o == "geta":
                for k, b in zip(self.ck[c], bs):
                    self.add(k, b, owner)
                return "geta %s [%s]" % (c, " ".join(bs))
            for k, b in zip(self.ck[c], bs):
                self.add(k, b, "fn", "unk")
            n = nn("c")
            self.nodes += 1
            self.add("F", n, owner)
            x = self.executor().replace(" xi=1", "")
            return "%s=thena %s [%s]%s%s%s" % (n, c, " ".join(bs), x, r.choice(["", " r=e"]), r.choice(["", " vr=nx"]))
        if o in ("tw", "waitfor"):
            f = self.fut(owner, False)
            if not f or self.nodes > 12:
                return None
            self.nodes += 1
            n = nn("w")
            if o == "tw":
                self.add("W", n, owner)
                return "%s=tw.%s %s" % (n, f[0], f[1])
            return "%s=waitfor.%s %s d=%d%s" % (n, f[0], f[1], r.choice([1, 5]), r.choice(["", " vr=until", " vr=fd", " vr=sys"]))
        if o in ("twait", "cpw"):
            w = self.pick("W", owner)
            if not w:
                return None
            if o == "twait":
                return "twait %s d=%d%s" % (w, r.choice([1, 3]), r.choice(["", " vr=until", " vr=fd", " vr=sys"]))
            b = nn("w")
            self.add("W", b, owner)
            return "cpw %s %s" % (w, b)
        if o in ("xrun", "xdrop"):
            return "%s %s" % (o, r.choice(["q1", "q1", "q1", "q2"]))
        if o == "co":
            n = nn("o")
            self.nodes += 1
            body = []
            for _ in range(r.randint(0, 3)):
                y = r.random()
                if y < .75:
                    c = [("F", m) for m in self.have("F", owner) if self.slots[("F", m)]["owner"] == owner]
                    c += [("S", m) for m in self.have("S", owner)]
                    if not c:
                        continue
                    k, m = r.choice(c)
                    if self.slots[(k, m)]["owner"] != "sh":
                        self.slots[(k, m)].update(owner="fn", st="unk")
                    body.append("aw.%s %s lv=1" % (k, m))
                else:
                    ps = self.have("P", owner)
                    if ps:
                        p = r.choice(ps)
                        self.slots[("P", p)].update(owner="fn", st="unk")
                        body.append(r.choice(["set %s", "sete %s"]) % p)
            k = r.choice("FFS")
            self.add(k, n, owner)
            return "%s=co.%s%s%s" % (n, k, r.choice(["", " r=e"]), " {%s}" % "; ".join(body) if body else "")
        return None

    def seq(self, owner, n, conc):
        out = []
        tries = 0
        while len(out) < n and tries < 8 * n:
            tries += 1
            s = self.op(owner, conc)
            if s:
                out.append(s)
        return out

    def program(self):
        r = self.r
        pre = self.seq(0, self.size, False)
        if not self.have("P", 0) and not self.have("K", 0):
            pre.append(self.op_force("mkp"))
        threads = []
        if self.conc:
            for (k, n), d in self.slots.items():
                if d["owner"] == 0:
                    if k == "S" and d["st"] == "ok" and r.random() < .5:
                        d["owner"] = "sh"
                    else:
                        # producers and consumers spread over the threads
                        d["owner"] = r.randint(1, self.conc)
            for t in range(1, self.conc + 1):
                threads.append("; ".join(self.seq(t, r.randint(2, 4), True)))
        for d in self.slots.values():
            if d["owner"] == "fn":
                d["fn"] = True   # a queued function may still use it: never a destination (it could become its own result)
            d["owner"] = 0
        post = self.seq(0, r.randint(0, 3) if self.conc else r.randint(0, 2), False)
        fin = []
        for (k, n), d in self.slots.items():
            if k == "P":
                fin.append("dropp %s" % n)
            elif k == "K":
                fin.append("dropk %s d=%d" % (n, self.tk[n]))
        fin += ["xclr qa"]
        tail = []
        for (k, n), d in self.slots.items():
            if k in "FS" and r.random() < .7:
                tail.append("get.%s %s" % (k, n))
        mode = r.random()
        if mode < .5:
            post += fin + tail
        elif mode < .75:
            post += ["awaiten %s" % n for (k, n) in list(self.slots) if k == "P"][:2]
        return futlang.build(self.kind, "; ".join(x for x in pre if x), [t for t in threads], "; ".join(post),
                             clean=r.choice(["pf", "fp", "qf"]))

    def op_force(self, o):
        w = self.w
        self.w = {o: 1}
        s = self.op(0, False)
        self.w = w
        return s


def programs(seed, n, conc, w=None, size=(4, 8), kinds=("val", "mov", "ref", "void"), **kw):
    rnd = random.Random("%s/%s/%s/%s" % (seed, n, conc, sorted((w or {}).items())))
    out = []
    bad = 0
    while len(out) < n and bad < 20 * n:
        kind = kinds[len(out) % len(kinds)]
        g = Gen(random.Random(rnd.random()), kind, w, conc=conc, size=rnd.randint(*size), **kw)
        try:
            p = g.program()
        except AssertionError:
            bad += 1
            continue
        out.append(p)
    return out
