"""Programs over promises, futures, continuations, tasks, combinators, timed waiters, coroutines.

A program text is a list of operations separated by ';':   [name =] op[.KIND] args [key=value] [{ nested }]
Names denote handle slots; a creating operation (mkp, then, ...) names its node after its slot. build()
numbers operations and slots and appends clean up operations, so that a run ends with nothing alive."""
import re

CREATE = {"mkp", "mkr", "then", "next", "ithen", "thena", "note", "task", "async", "all", "any", "tw", "waitfor",
          "co"}
# positional arguments
ARGS = {"mkp": "", "mkr": "", "getf": "ab", "set": "a", "sete": "a", "dropp": "a", "movep": "ab", "awaiten": "a",
        "get": "a", "wait": "a", "isr": "a", "valid": "a", "drop": "a", "shr": "ab", "copy": "ab", "mv": "ab",
        "det": "ab", "then": "a", "next": "a", "ithen": "a", "note": "a", "task": "", "getfk": "ab", "call": "a",
        "dropk": "a", "mvk": "ab", "swapk": "ab", "validk": "a", "async": "", "all": "L", "any": "L", "geta": "aM",
        "thena": "aM", "tw": "a", "twait": "a", "cpw": "ab", "dropw": "a", "waitfor": "a", "xrun": "x", "xrunb": "x",
        "xdrop": "x", "xclr": "x", "awb": "n", "co": "", "aw": "a", "sig": "n", "aws": "n"}
DEF = {"a": 0, "b": 0, "ak": "F", "x": "in", "xi": 0, "r": "v", "ro": 0, "ops": [], "as": [], "bs": [], "ks": [],
       "vr": "", "d": 0, "pk": [], "pka": [], "lv": 0, "thr": 0, "keep": 0, "big": 0, "vc": "", "ec": "", "ac": ""}
TOK = re.compile(r"[A-Za-z_0-9.]+|[={};\[\]]")


class Prog:
    def __init__(self, kind):
        self.kind = kind
        self.ops = []
        self.names = {}

    def parse(self, text):
        toks = TOK.findall(text)
        pos = 0

        def block(end):
            nonlocal pos
            ids = []
            while pos < len(toks) and toks[pos] != end:
                if toks[pos] == ";":
                    pos += 1
                    continue
                ids.append(one())
            if end is not None:
                assert toks[pos] == end, text
                pos += 1
            return ids

        def one():
            nonlocal pos
            name = None
            if toks[pos + 1:pos + 2] == ["="]:
                name = toks[pos]
                pos += 2
            w = toks[pos]
            pos += 1
            o, _, ak = w.partition(".")
            if o not in ARGS:
                raise ValueError("unknown operation %s in %s" % (o, text))
            op = {"o": o, "name": name}
            if ak:
                op["ak"] = ak
            self.ops.append(op)
            pa = list(ARGS[o])
            while pos < len(toks) and toks[pos] not in (";", "}"):
                t = toks[pos]
                if t == "{":
                    pos += 1
                    op["nest"] = block("}")
                elif t == "[":
                    pos += 1
                    l = []
                    while toks[pos] != "]":
                        l.append(toks[pos])
                        pos += 1
                    pos += 1
                    op["as" if pa.pop(0) == "L" else "bs"] = l
                elif toks[pos + 1:pos + 2] == ["="]:
                    k, v = t, toks[pos + 2]
                    pos += 3
                    if k in ("x", "r", "vr", "ak"):
                        op[k] = v
                    elif k == "ks":
                        op[k] = list(v)
                    elif k in ("ro", "b"):
                        op[k] = v
                    else:
                        op[k] = int(v)
                else:
                    pos += 1
                    k = pa.pop(0)
                    if k == "n":
                        op["a"] = ("num", int(t))
                    elif k == "x":
                        op["x"] = t
                    else:
                        op[k] = t
            return op

        return block(None)


def peeks(ops, slots, blocks):
    """Annotates operations that learn of readiness with the operations (pk) whose plain writes must be visible then.

    Every setter and function writes a plain variable of its own first; the runtime's race detector reports a reader
    which is not ordered after it. Only what is certain for every schedule is annotated."""
    org = {}          # (space, slot) -> names of nodes it may hold
    movedp = set()

    def put(sp, sl, xs):
        cur = org.setdefault((sp, sl), set())
        n = len(cur)
        cur |= xs
        return len(cur) != n

    def of(sp, sl):
        return org.get((sp, sl), set())
    more = True
    while more:
        more = False
        for op in ops:
            o, n, a, b, ak = op["o"], op.get("name"), op.get("a"), op.get("b"), op.get("ak", "F")
            r = op.get("r", "v")
            todo = []
            if o == "mkp":
                todo += [("P", n, {n}), ("F", n, {n})]
            elif o == "ithen":
                todo += [("P", n, {n}), ("F", n, {n})]
            elif o in ("then", "next", "async", "mkr", "thena"):
                todo.append(("S" if r in ("sfut", "sinv") else "F", n, {n}))
            elif o == "co":
                todo.append((ak, n, {n}))
            elif o in ("all", "any"):
                todo.append(("C", n, {n}))
            elif o == "task":
                todo.append(("K", n, {n}))
            elif o in ("tw",):
                todo.append(("W", n, of(ak, a)))
            elif o == "cpw":
                todo.append(("W", b, of("W", a)))
            elif o in ("shr", "copy"):
                todo.append(("S", b, of("F" if o == "shr" else "S", a)))
            elif o in ("mv", "det"):
                todo.append((ak, b, of(ak, a)))
            elif o == "movep":
                movedp.add(a)
                todo.append(("P", b, of("P", a)))
            elif o in ("mvk", "swapk"):
                todo.append(("K", b, of("K", a)))
                if o == "swapk":
                    todo.append(("K", a, of("K", b)))
            elif o == "getf":
                todo.append(("F", b, of("P", a)))
            elif o == "getfk":
                todo.append((ak, b, of("K", a)))
            if op.get("keep"):
                todo.append((ak, b, of(ak, a)))
            if o in ("geta", "thena"):
                src = slots[a]
                for k, x, y in zip(op["ks"], src["as"], op["bs"]):
                    todo.append((k, y, of(k, x)))
            for t in todo:
                more |= put(*t)
    where = {id(op): i for i, b in enumerate(blocks) for op in b}
    setters = {}
    for op in ops:
        if op["o"] in ("set", "sete"):
            for n in of("P", op["a"]) or {None}:
                setters.setdefault(n, []).append(op)
    setter = {}
    for n, l in setters.items():
        op = l[0]
        # only set through this slot, once, and not given up before
        if n is None or len(l) > 1 or len(of("P", op["a"])) > 1 or op["a"] in movedp:
            continue
        drops = [x for x in ops if x["o"] == "dropp" and x["a"] == op["a"]]
        w = where.get(id(op))
        if all(w is not None and where.get(id(x)) == w and blocks[w].index(x) > blocks[w].index(op) for x in drops):
            setter[n] = op
    memo = {}

    def done(n):
        """operations finished when node n is ready"""
        if n in memo:
            return memo[n]
        memo[n] = []
        op = slots[n]
        o = op["o"]
        l = [setter[n]] if n in setter else []
        if o in ("then", "next", "ithen", "thena", "note"):
            l = l + src(op)
        if o in ("then", "next", "thena", "mkr", "task", "async", "co"):
            l = l + [op]
        if o == "all":
            for k, x in zip(op["ks"], op["as"]):
                l = l + one(k, x)
        memo[n] = l
        return l

    def one(sp, sl):
        x = of(sp, sl)
        return done(next(iter(x))) if len(x) == 1 else []

    def src(op):
        return one(op.get("ak", "F"), op["a"])
    for op in ops:
        o = op["o"]
        if o in ("get", "wait", "isr", "then", "next", "ithen", "note", "thena", "geta", "waitfor", "aw"):
            op["pk"] = src(op)
            if o in ("geta", "thena") and slots[op["a"]]["o"] == "any":
                op["pka"] = [one(k, x) for k, x in zip(slots[op["a"]]["ks"], slots[op["a"]]["as"])]
        elif o == "twait":
            op["pk"] = one("W", op["a"])


def build(kind, pre="", threads=(), post="", clean="pf", **kw):
    P = Prog(kind)
    pre, threads, post = P.parse(pre), [P.parse(t) for t in threads], P.parse(post)
    allops = list(P.ops)
    # slots
    slots = {}
    nodes = []
    anon = 0
    for op in allops:
        if op["o"] in CREATE:
            if not op["name"]:
                anon += 1
                op["name"] = "_%d" % anon
            assert op["name"] not in slots, op["name"]
            slots[op["name"]] = op
            nodes.append(op)
        else:
            assert op["name"] is None or op["o"] in ("set", "sete", "call"), op
    order = list(slots)

    def slot(n, ref=False):
        if n not in order:
            order.append(n)
        return order.index(n) + 1

    F, S, C, PP, K, W, Q = [], [], [], [], [], [], []

    def add(l, x):
        if x not in l:
            l.append(x)
    tk = {}
    for op in allops:
        o = op["o"]
        r = op.get("r", "v")
        if o == "task":
            tk[op["name"]] = 2 if r in ("fut", "inv", "fe") else 3 if r in ("sfut", "sinv") else 4 if op.get("vr") == "two" else 1
    for op in allops:
        o = op["o"]
        r = op.get("r", "v")
        ak = op.get("ak", "F")
        n = op["name"]
        if op.get("x", "in") in ("q1", "q2"):
            add(Q, op["x"])
        if o == "mkp":
            add(PP, n)
            add(F, n)
        elif o in ("getf",):
            add(F, op["b"])
        elif o == "movep":
            add(PP, op["b"])
        elif o == "mkr":
            add(F, n)
        elif o in ("then", "next", "async"):
            add(S if r in ("sfut", "sinv") else F, n)
            if op.get("keep"):
                add(S if ak == "S" else F, op["b"])
        elif o == "ithen":
            add(F, n)
            add(PP, n)
            if op.get("keep"):
                add(S if ak == "S" else F, op["b"])
        elif o == "thena":
            add(F, n)
        elif o in ("shr", "copy"):
            add(S, op["b"])
        elif o in ("mv", "det"):
            add(S if ak == "S" else F, op["b"])
        elif o == "task":
            add(K, (n, tk[n]))
        elif o in ("mvk", "swapk", "getfk", "call", "dropk", "validk"):
            if "d" not in op:
                # task slots hold tasks of one C++ type only
                op["d"] = tk.get(op["a"], 0) or tk.get(op.get("b"), 0) or 1
            if o == "mvk" or o == "swapk":
                assert tk.get(op["a"], op["d"]) == tk.get(op["b"], op["d"]) == op["d"], "types of tasks"
                add(K, (op["b"], op["d"]))
                tk.setdefault(op["b"], op["d"])
            if o == "getfk":
                dk = "S" if op["d"] == 3 else "F"
                op["ak"] = dk
                add(S if dk == "S" else F, op["b"])
        elif o in ("all", "any"):
            op.setdefault("ks", ["F"] * len(op["as"]))
            op.setdefault("vr", "vec" if len(set(op["ks"])) < 2 and o == "all" else "tup")
            add(C, n)
        elif o == "tw":
            add(W, n)
        elif o == "cpw":
            add(W, op["b"])
        elif o == "co":
            add(S if ak == "S" else F, n)
        if o in ("geta", "thena"):
            op["ak"] = "C"
            op["ks"] = list(slots[op["a"]]["ks"])
            for k, b in zip(op["ks"], op["bs"]):
                add(S if k == "S" else F, b)

    peeks(allops, slots, [pre, post] + threads)

    def C_(text):
        return P.parse(text)
    cl = []
    prod = "".join("dropp %s;" % x for x in PP) + "".join("dropk %s d=%d;" % x for x in K)
    qs = "xclr qa;" if Q else ""
    cons = "".join("drop.F %s;" % x for x in F) + "".join("drop.S %s;" % x for x in S) + \
        "".join("drop.C %s;" % x for x in C) + "".join("dropw %s;" % x for x in W)
    if clean == "pf":
        text = prod + qs + cons + qs + prod + qs
        if not Q:
            text = prod + cons + ("".join("dropp %s;" % n["name"] for n in nodes if n["o"] == "ithen"))
    elif clean == "fp":
        text = cons + qs + prod + qs + cons + qs
    else:
        text = qs + cons + qs + prod + cons + qs
    # functions run by the clean up may have been given promises, kept futures or made new ones
    nested = {id(x) for op in allops for x in op.get("nest", [])}
    late = "".join("dropp %s;" % n["name"] for n in nodes if n["o"] == "ithen")
    for n in allops:
        if n.get("keep"):
            late += "drop.%s %s;" % (n.get("ak", "F"), n["b"])
        elif n["o"] == "thena":
            late += "".join("drop.%s %s;" % x for x in zip(n["ks"], n["bs"]))
        if id(n) not in nested:
            continue
        if n["o"] in ("mkp", "movep"):
            late += "dropp %s;" % (n["name"] or n["b"])
        for l, k in ((F, "F"), (S, "S"), (C, "C")):
            x = n["name"] if n["o"] in CREATE else n.get("b")
            if x in l:
                late += "drop.%s %s;" % (k, x)
    if late:
        text += (late + qs) * (2 if Q else 1)
    cl = C_(text)
    rest = [op for op in P.ops if op["o"] not in CREATE]
    num = {}
    for i, op in enumerate(nodes + rest):
        num[id(op)] = i + 1
    out = []
    for op in nodes + rest:
        d = dict(DEF)
        i = num[id(op)]
        d["i"], d["o"] = i, op["o"]
        for k in ("ak", "x", "xi", "r", "ks", "vr", "d", "lv", "thr", "keep", "big"):
            if k in op:
                d[k] = op[k]
        for k in ("a", "b", "ro"):
            if k in op:
                d[k] = op[k][1] if isinstance(op[k], tuple) else slot(op[k])
        for k in ("as", "bs"):
            if k in op:
                d[k] = [slot(x) for x in op[k]]
        d["pk"] = sorted({num[id(x)] for x in op.get("pk", [])})
        d["pka"] = [sorted({num[id(x)] for x in l}) for l in op.get("pka", [])]
        d["ops"] = [num[id(x)] for x in op.get("nest", [])]
        if op["o"] == "waitfor":
            pass
        d["vc"] = "v0" if kind == "void" else "v%d" % i
        d["ec"], d["ac"] = "e%d" % i, "a%d" % i
        # in a run on the real code slot 0 does not exist for unnamed handles
        out.append(d)
    g = lambda l: [num[id(x)] for x in l]
    p = {"kind": kind, "nn": len(order), "ops": out, "pre": g(pre), "threads": [g(t) for t in threads],
         "post": g(post) + g(cl)}
    assert len(out) < 128, (len(out), pre)
    p["text"] = kw.pop("text", None)
    p.update(kw)
    return p
