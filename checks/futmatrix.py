"""Products of producers x consumers x outcomes, run by one thread: every way to make a future, to finish it (before
or after something is attached) and to consume it. One result kind per program in the quick tier, all of them in the
thorough tier."""
import itertools
import random

import futlang
import futprogs

# text, kind of the future (slot f), [ways to finish it]; {i} is an index unique in the program
PROD = {
    "mkp": ("f=mkp", "F", ["set f", "sete f", "dropp f"]),
    "canc": ("f=mkp vr=canc", "F", ["set f", "sete f", "dropp f"]),
    "alloc": ("f=mkp vr=alloc", "F", ["set f", "sete f", "dropp f"]),
    "leg": ("f=mkp vr=<leg|legc|lega>; getf f f", "F", ["set f", "sete f", "dropp f"]),
    "movep": ("h_=mkp; mv h_ f; f2=mkp; drop f2; movep h_ f2", "F", ["set f2", "sete f2", "dropp f2"]),
    "task": ("f=task <r=v|r=e|r=inv|r=fe|r=v vr=ref|r=e vr=ref|thr=1>; getfk f f", "F", ["call f", "dropk f"]),
    "vtask": ("f=task <r=v|r=e|r=v vr=ref>; getfk f f", "F", ["call f", "dropk f"]),
    "stask": ("f=task r=sinv; getfk f f", "S", ["call f", "dropk f"]),
    "utask": ("q=mkp; f=task r=fut ro=q; getfk f f", "F",
              ["call f; dropk f; set q", "set q; call f", "call f; sete q", "call f; dropp q", "dropk f"]),
    "ustask": ("q=mkp; shr q t_; f=task r=sfut ro=t_ lv=<0|1>; getfk f f", "S",
               ["call f; dropk f; set q", "sete q; call f", "call f; dropp q", "dropk f"]),
    "async": ("f=async x=q1 r=<v|e|inv|fe>", "F", ["xrun q1", "xdrop q1"]),
    "uasync": ("q=mkp; f=async x=q1 r=fut ro=q", "F", ["xrun q1; set q", "sete q; xrun q1", "xrun q1; dropp q", "xdrop q1"]),
    "mkr": ("f=mkr r=<v|e>", "F", [""]),
    "now": ("f=async r=<v|e|inv|fe> <|x=inl|x=nul|x=nul xi=1>", "F", [""]),
    "next": ("p=mkp; f=next p", "F", ["set p", "sete p", "dropp p"]),
    "nextx": ("p=mkp; f=next p x=q1", "F", ["set p; xrun q1", "sete p; xrun q1", "set p; xdrop q1", "dropp p; xclr q1"]),
    "thenx": ("p=mkp; f=then p x=q1", "F", ["set p; xrun q1", "sete p; xrun q1", "set p; xdrop q1", "dropp p; xclr q1"]),
    "then": ("p=mkp; f=then p r=<v|e|fe|inv>", "F", ["set p", "sete p", "dropp p"]),
    "sthen": ("p=mkp; shr p o_; f=<then|next>.S o_ r=<v|e|fe|inv>", "F", ["set p", "sete p", "dropp p"]),
    "sinv": ("p=mkp; f=<then|next> p r=sinv", "S", ["set p", "sete p", "dropp p"]),
    "unwrap": ("q=mkp; p=mkp; f=<then|next> p r=fut ro=q", "F",
               ["set p; set q", "sete q; set p", "set p; dropp q", "sete p; set q", "dropp p; dropp q"]),
    "sunwrap": ("q=mkp; shr q t_; p=mkp; f=<then|next> p r=sfut ro=t_ lv=<0|1>", "S",
                ["set p; set q", "sete q; set p", "set p; dropp q", "sete p; set q", "dropp p"]),
    "ithen": ("p=mkp; f=ithen p {<set|sete|dropp> f}", "F", ["set p", "sete p", "dropp p"]),
    "ithenx": ("p=mkp; f=ithen p x=q1", "F", ["set p; xrun q1; set f", "set p; xrun q1; dropp f", "set p; xdrop q1"]),
    "det": ("p=mkp; det p f", "F", ["set p", "sete p", "dropp p"]),
    "shr": ("p=mkp; shr p f", "S", ["set p", "sete p", "dropp p"]),
    "sdet": ("p=mkp; shr p o_; det.S o_ f", "S", ["set p", "sete p", "dropp p"]),
    "snext": ("p=mkp; a_=next p; shr a_ f", "S", ["set p", "sete p", "dropp p"]),
}
ANY = [p for p in PROD if p != "vtask"]
BASIC = ["mkp", "task", "async", "nextx", "unwrap", "shr", "mkr", "ustask", "ithenx"]
E = "<|xi=1|x=q1|x=inl|x=nul|x=nul xi=1>"

# consumers: text with {k}; tail: what is looked at once the source has finished
CONS = {
    "C01": [("<set|sete|set thr=1> f", "set f; sete f; get.{k} f; set f", ["mkp", "canc", "alloc", "leg"]),
            ("", "set <f|p>; sete <f|p>; call f; get.{k} f; set f; call f", ["mkp", "task", "stask", "utask", "ustask", "shr", "ithen", "next"]),
            ("", "get.{k} f; valid.{k} f", ["mkp", "leg", "alloc", "task", "shr", "sunwrap", "ithenx", "snext"]),
            ("", "isr.{k} f; isr.{k} f; wait.{k} f; get.{k} f", ANY)],
    "C02": [("", "isr.{k} f; wait.{k} f; isr.{k} f", ANY), ("c=then.{k} f", "isr c; wait c; get c", ANY)],
    "C03": [("", "wait.{k} f; get.{k} f", ANY), ("c=next.{k} f", "wait c; get c", ANY)],
    "C04": [("n=note.{k} f %s lv=<0|1>" % E, "xrun q1; isr.{k} f", BASIC),
            ("n=note.{k} f; m=note.{k} f x=q1; o=note.{k} f xi=1; c=<then|next>.{k} f", "xrun q1; get c", ANY),
            ("c=<then|next>.{k} f lv=1", "get c", ANY),
            ("c=then.{k} f {d=async; e=next d}", "get c; get e", ANY)],
    "C05": [("c=<then|next>.{k} f r=<v|e|fe|inv> %s" % E, "xrun q1; get c", ["mkp", "shr", "mkr", "unwrap"]),
            ("c=<then|next>.{k} f r=<v|e|fe>; d=<then|next> c", "get d", ANY),
            ("c=next.{k} f; d=next c; e=<then|next> d", "get e", ANY),
            ("c=<then|next>.{k} f vr=<hv|hb> r=<v|e> <|x=q1|x=nul>", "xrun q1; get c", ANY),
            ("c=ithen.{k} f {<set|sete|dropp> c}; d=<then|next> c", "get d", BASIC),
            ("c=then.{k} f keep=1 b=g", "get c; get.{k} g", ANY)],
    "C06": [("c=<then|next>.{k} f r=<fe|inv> %s" % E, "isr c; xrun q1; get c", BASIC),
            ("c=<then|next>.{k} f r=sinv %s; d=<then|next>.S c" % E, "xrun q1; get.S c; get d", BASIC),
            ("i=mkr r=<v|e>; c=<then|next>.{k} f r=fut ro=i", "get c", ANY),
            ("i=mkp; c=<then|next>.{k} f r=fut ro=i; d=<then|next> c", "isr c; <set|sete|dropp> i; get d", ANY),
            ("i=mkp; shr i j; c=<then|next>.{k} f r=sfut ro=j lv=<0|1>; d=then.S c", "isr.S c; <set|dropp> i; get d; get.S c", BASIC),
            ("a=async r=fut ro=f x=<q1|in>", "xrun q1; xrun q1; get a", [p for p in ANY if PROD[p][1] == "F"]),
            ("a=async r=sfut ro=f lv=<0|1> x=<q1|in>", "xrun q1; xrun q1; get.S a", [p for p in ANY if PROD[p][1] == "S"]),
            ("a=task r=fut ro=f; getfk a b; call a", "get b", [p for p in ANY if PROD[p][1] == "F"])],
    "C07": [("", "get.{k} f", ANY), ("c=<then|next>.{k} f %s" % E, "xrun q1; get c", BASIC),
            ("c=<then|next>.{k} f x=q1; d=<then|next> c", "xdrop q1; get d", BASIC),
            ("c=ithen.{k} f <|x=q1|x=nul>; d=then c", "<xrun|xdrop> q1; dropp c; get d", BASIC),
            ("n=note.{k} f x=<q1|nul>; c=then.{k} f", "<xdrop|xclr> q1; get c", ANY)],
    "C08": [("drop.{k} f", "", ANY), ("c=<then|next>.{k} f %s; drop.{k} f; drop c" % E, "xrun q1", ANY),
            ("c=next.{k} f x=q1; d=then c x=q2; e=next d; drop.{k} f", "xrun q1; drop e; xrun q2; xrun q1", ANY),
            ("c=ithen.{k} f <|x=q1|x=nul>; drop c; drop.{k} f", "xrun q1; set c", BASIC),
            ("n=note.{k} f <|x=q1>; drop.{k} f", "xrun q1", ANY),
            ("i=mkp vr=canc; c=<then|next>.{k} f r=fut ro=i; d=next c", "drop d; awaiten i; set i", BASIC)],
    "C09": [("det.{k} f d; drop.{k} d", "", ANY), ("det.{k} f d", "get.{k} d", ANY),
            ("det.{k} f d; c=<then|next>.{k} d <|x=q1>; drop c; drop.{k} d", "xrun q1", ANY),
            ("c=<then|next>.{k} f <|x=q1|x=nul>; det c d; drop d; drop.{k} f", "xrun q1", ANY),
            ("c=next.{k} f x=q1; d=next c x=q2; det d e; drop e", "xrun q1; xrun q2", BASIC)],
    "C10": [("drop.{k} f", "awaiten f; awaiten p; awaiten q", ["mkp", "canc", "alloc", "leg", "next", "nextx", "unwrap", "ithen", "det", "shr", "sdet", "utask", "ustask", "uasync"]),
            ("c=<then|next>.{k} f <|x=q1>; awaiten f; awaiten p; awaiten q; drop.{k} f; awaiten f; awaiten p; awaiten q; drop c; awaiten f; awaiten p; awaiten q", "awaiten f; awaiten p; awaiten q",
             ["canc", "leg", "next", "unwrap", "shr", "ithenx"]),
            ("c=<all|any> [f] ks={k} vr=<vec|tup>; awaiten f; awaiten p; awaiten q; drop.C c", "awaiten f; awaiten p; awaiten q", ["canc", "next", "unwrap", "shr", "sdet"])],
    "C11": [("c=all [f] ks={k} vr=<vec|it|tup>", "isr.C c; geta c [x]; get.{k} x", ANY),
            ("c=all [f] ks={k} vr=<vec|tup>; d=thena c [x] <|vr=nx> <|x=q1|x=inl|x=nul>", "xrun q1; get d; get.{k} x", BASIC),
            ("g=mkr; c=all [<f g|g f>] vr=<vec|it|al|tup>", "isr.C c; geta c [x y]; get x; get y", [p for p in ANY if PROD[p][1] == "F"]),
            ("g=mkp; c=all [<f g|g f>] vr=<vec|it|al|tup>", "isr.C c; <set|sete|dropp> g; isr.C c; geta c [x y]; get x; get y",
             [p for p in BASIC if PROD[p][1] == "F"]),
            ("g=mkp; shr g h; c=all [h f] ks=S{k} vr=tup", "isr.C c; <set|dropp> g; isr.C c; geta c [x y]; get.S x; get.{k} y; get.S h", ANY)],
    "C12": [("c=any [f] ks={k} vr=<vec|it|tup>", "isr.C c; geta c [x]; get.{k} x", ANY),
            ("c=any [f] ks={k} vr=<vec|tup>; d=thena c [x] <|vr=nx> <|x=q1|x=inl|x=nul>", "xrun q1; get d; get.{k} x", BASIC),
            ("g=mkr; c=any [<f g|g f>] vr=<vec|it|tup>", "isr.C c; geta c [x y]; get x; get y", [p for p in ANY if PROD[p][1] == "F"]),
            ("g=mkp; c=any [<f g|g f>] vr=<vec|it|tup>", "isr.C c; <set|sete|dropp> g; isr.C c; geta c [x y]; get x; get y",
             [p for p in BASIC if PROD[p][1] == "F"]),
            ("g=mkp; c=any [<f g|g f>] vr=<vec|it|tup>; <set|dropp> g", "isr.C c; geta c [x y]; get x; get y",
             [p for p in BASIC if PROD[p][1] == "F"]),
            ("g=mkp; shr g h; c=any [h f] ks=S{k} vr=tup", "isr.C c; <set|dropp> g; isr.C c; geta c [x y]; get.S x; get.{k} y; get.S h", ANY)],
    "C16": [("w=tw.{k} f; twait w d=1", "twait w d=1 <|vr=until|vr=sys|vr=fd>; get.{k} f", ANY),
            ("waitfor.{k} f d=1", "waitfor.{k} f d=1 <|vr=until|vr=sys|vr=fd>; get.{k} f", ANY),
            ("w=tw.{k} f; cpw w z; drop.{k} f; dropw w", "twait z d=1", ANY),
            ("w=tw.{k} f; c=<then|next>.{k} f <|x=q1>", "twait w d=2; xrun q1; get c", BASIC)],
    "C17": [("c=<then|next|ithen>.{k} f %s lv=<0|1>" % E, "isr c; xrun q1; isr c", BASIC),
            ("c=<then|next>.{k} f x=q2; d=<then|next> c x=q1; n=note d x=q2", "xrun q2; xrun q1; xrun q2; xrun q1; isr d", ANY),
            ("c=<then|next>.{k} f r=<e|fe|inv> x=<q1|q2>", "isr c; xrun q1; xrun q2; get c", BASIC),
            ("a=async %s lv=<0|1> big=<0|1> r=<v|e>" % E, "xrun q1; xrun q1; isr a", ["mkr", "async"])],
    "C18": [("", "", ANY), ("drop.{k} f", "", ANY), ("c=<then|next>.{k} f %s lv=<0|1>" % E, "<xrun|xdrop> q1", BASIC),
            ("c=<then|next>.{k} f x=q1; n=note.{k} f x=q1; w=tw.{k} f", "drop c; xrun q1; dropw w", ANY),
            ("c=<all|any> [f] ks={k} vr=<vec|tup>", "<drop.C c|geta c [x]>", ANY)],
    "C19": [("", "get.{k} f; call f; validk f", ["task", "stask", "utask", "ustask"]),
            ("mvk f t2; validk f; validk t2; call f; mvk t2 f; validk f", "get.{k} f; call f; validk f", ["task", "stask", "utask", "ustask"]),
            ("drop.{k} f", "call f; validk f; mvk f g; call g", ["task", "stask", "utask", "ustask"]),
            ("c=<then|next>.{k} f; <drop c|det c d>", "call f; dropk f; call f; validk f", ["task", "stask", "utask", "ustask"]),
            ("t=task r=<v|e>; <swapk f t|validk t>; getfk t g; call t; dropk t", "isr g; call f; get g", ["vtask"]),
            ("a=async r=<v|e|fe|inv> %s lv=<0|1> big=<0|1>" % E, "xrun q1; xrun q1; isr a; get a", ["async"]),
            ("a=async r=<v|e|fe|inv> %s lv=<0|1> vr=<two|pm>" % E, "xrun q1; xrun q1; isr a; get a", ["async"]),
            ("t=task vr=two r=<v|e> lv=<0|1>; getfk t g; <call t|mvk t u; call u|dropk t>; call t", "validk t; get g", ["vtask"])],
    "C21": [("o=co.<F|S> r=<v|e> {aw.{k} f lv=1}", "isr.<F|S> o; get.<F|S> o", ANY),
            ("o=co.F {aw.{k} f lv=1}; c=<then|next> o %s" % E, "xrun q1; get c", BASIC),
            ("g=mkp; o=co.F {aw.{k} f lv=1; aw.F g lv=1}", "<set|sete|dropp> g; get o", BASIC)],
    "C22": [("valid.{k} f; get.{k} g2; wait.{k} g2; isr.{k} g2; valid.{k} g2", "isr.{k} f; get.{k} f; valid.{k} f", BASIC),
            ("<mv|det>.{k} f y; valid.{k} f; valid.{k} y; <isr.{k} f|wait.{k} f|get.{k} f|c=then.{k} f|c=next.{k} f|c=ithen.{k} f|n=note.{k} f|n=note.{k} f lv=1 x=q1|c=then.{k} f lv=1 x=q1|det.{k} f z>",
             "get.{k} y; valid.{k} y; valid.{k} f; isr.{k} y", BASIC),
            ("c=<then|next|ithen>.{k} f <|x=q1>; valid.{k} f; valid c", "xrun q1; valid c; valid.{k} f; isr.{k} f", ANY),
            ("waitfor.{k} g2 d=1 <|vr=until>; <mv|det>.{k} f y; waitfor.{k} f d=1 <|vr=until>", "get.{k} y", BASIC),
            ("n=note.{k} f; w=tw.{k} f; valid.{k} f", "get.{k} f; valid.{k} f; get.{k} f; n2=note.{k} f; c=next.{k} f; valid c", ANY)],
}
for k in list(CONS):
    for e in CONS[k]:
        assert len(e) == 3


def programs(prop, thorough=False, limit=1500):
    rnd = random.Random(prop)
    out, seen = [], set()
    fam = []
    for att, tail, prods in CONS.get(prop, []):
        texts = []
        for pn in prods:
            ptext, k, fins = PROD[pn]
            for fin in fins:
                for when in ((0, 1) if fin and att else (0,)):
                    seq = [ptext] + ([att, fin] if when == 0 else [fin, att]) + [tail]
                    w = "; ".join(x for x in seq if x).replace("{k}", k)
                    for pre, _, _ in futprogs.variants((w, [], "", {"pair": 1})):
                        if pre not in seen:
                            seen.add(pre)
                            texts.append(pre)
        rnd.shuffle(texts)
        fam.append(texts)
    tot = sum(len(t) for t in fam)
    for texts in fam:
        n = len(texts)
        if not thorough and tot > limit:
            texts = texts[:max(60, n * limit // tot)]
        for i, w in enumerate(texts):
            for j, kind in enumerate(futprogs.KINDS):
                if not thorough and j != (i % 4 if "thr=1" not in w else i % 2) or not futprogs.fits(kind, w):
                    continue
                try:
                    out.append(futlang.build(kind, w, [], "", clean=("pf", "fp", "qf")[(i + j) % 3], text=w))
                except Exception as e:
                    raise Exception("%s: %r" % (w, e))
    return out


if __name__ == "__main__":
    for p in CONS:
        print(p, len(programs(p)), len(programs(p, True)))
