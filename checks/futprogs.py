"""Directed programs per property. <a|b> expands to every alternative; every program is built for one
value kind (rotating) in the quick tier and for all four kinds in the thorough tier.
Entry: (pre, [threads], post[, options])"""
import itertools
import re

import futlang

KINDS = ("val", "mov", "ref", "void")
P = {}

P["C01"] = [
    ("p=mkp", ["<set|sete> p", "get p"], "set p; sete p"),
    ("p=mkp; shr p s", ["set p", "get.S s; get.S s", "get.S s"], "sete p; set p; get.S s"),
    ("p=mkp", [], "set p thr=1; isr p; awaiten p; <set|sete> p; set p; get p"),
    ("p=mkp", ["set p thr=1; <dropp|set> p", "get p"], ""),
    ("p=mkp; shr p s", ["sete p; set p", "wait.S s; get.S s"], "get.S s"),
    ("p=mkp", [], "drop p; set p; set p; sete p"),
    ("p=mkp vr=canc", ["set p; <set|sete> p", "drop p"], "sete p"),
    ("t=task r=<v|e>; getfk t f", ["call t; call t", "get f"], "call t; validk t"),
    ("t=task thr=1; getfk t f", ["call t; call t; dropk t", "get f"], ""),
    ("t=task r=<v|e>; getfk t f; shr f s", ["call t", "get.S s"], "call t; get.S s"),
    ("a=async x=q1 r=<v|e>; shr a s", ["xrunb q1", "get.S s", "get.S s"], "get.S s"),
    ("p=mkp; i=ithen p {<set|sete> i; set i; sete i}", ["<set|sete|dropp> p", "get i"], ""),
    ("p=mkp; i=ithen p", ["set p; <set|sete> i; sete i; set i", "get i"], "set i"),
    ("p=mkp vr=<leg|legc|lega>; <set|sete> p; set p; getf p f", [], "get f; set p"),
    ("q=mkp; t=task r=fut ro=q; getfk t f", ["call t; call t", "set q; set q", "get f"], "call t"),
    ("p=mkp; c=<then|next> p {set p; sete p}", ["set p", "get c"], "set p"),
    ("p=mkp; shr p s; c=then.S s {get.S s; set p}; d=next.S s", ["set p; sete p", "get.S s"], "get c; get d"),
    ("p=mkp; movep p q", ["<set|sete> q", "get p"], "set q; set p; getf q g"),
    ("p=mkr r=<v|e>; shr p s", ["get.S s", "get.S s"], "get.S s"),
    ("p=mkp; c=then p r=<v|e>; shr c s; d=then.S s", ["set p", "get.S s", "get d"], "get.S s"),
    ("p=mkp", ["set p", "isr p; get p"], "set p thr=1; set p"),
]

P["C02"] = [
    ("p=mkp vr=<canc|alloc|leg>; <getf p p|awaiten p>", ["<set|sete> p", "isr p; isr p; get p"], ""),
    ("p=mkp; shr p s; copy.S s z", ["<set|sete> p", "isr.S s; get.S s", "wait.S z; get.S z"], "get.S s"),
    ("p=mkp; shr p s", ["<set|dropp> p", "isr.S s; isr.S s", "get.S s; isr.S s"], ""),
    ("p=mkp; c=<then|next> p", ["<set|sete> p", "isr c; get c"], ""),
    ("p=mkp", ["<set|sete|dropp> p", "c=<then|next> p; isr c; get c"], ""),
    ("p=mkp; shr p s", ["<set|sete> p", "c=then.S s; get c", "d=next.S s x=q1; xrun q1"], "get d"),
    ("p=mkp", ["<set|dropp> p", "n=note p; isr p; get p"], ""),
    ("p=mkp; w=tw p", ["<set|sete> p", "twait w d=5; isr p; get p"], ""),
    ("p=mkp; w=tw p; cpw w z; shr p s", ["<set|dropp> p", "twait w d=5; isr.S s", "twait z d=3 vr=until; get.S s"], ""),
    ("p=mkp", ["<set|dropp> p", "waitfor p d=5; isr p; get p"], ""),
    ("p=mkp; q=mkp; c=all [p q]", ["set p", "<set|sete> q", "geta c [x y]; get x; get y"], ""),
    ("p=mkp; q=mkp; c=any [p q]", ["set p", "set q", "geta c [x y]; isr x; isr y; get x; get y"], ""),
    ("p=mkp; q=mkp; c=<then|next> p r=fut ro=q", ["set p", "<set|sete|dropp> q", "isr c; get c"], ""),
    ("t=task r=<v|e>; getfk t f", ["call t", "isr f; get f"], ""),
    ("a=async x=q1 r=<v|e>", ["xrunb q1", "isr a; get a"], ""),
    ("p=mkp; c=then p x=q1", ["set p", "xrunb q1", "isr c; get c"], ""),
    ("p=mkp; i=ithen p", ["set p; set i", "isr i; get i"], ""),
    ("p=mkp; shr p s; c=then.S s keep=1 b=z; det c d; drop d", ["set p", "isr.S s; get.S s"], "get.S z"),
    ("p=mkp; q=mkp; c=all [p q] vr=tup; d=thena c [x y]; e=then d", ["set p", "set q", "get e; get x; get y"], ""),
    ("p=mkp; mv p f; det f g", ["set p", "isr g; get g"], ""),
]

P["C03"] = [
    ("p=mkp", ["<set|sete|dropp> p", "wait p; get p"], ""),
    ("p=mkp vr=<canc|alloc>", ["<set|dropp> p", "get p"], ""),
    ("p=mkp; shr p s; copy.S s a; copy.S s b", ["<set|dropp> p", "wait.S a; drop.S a", "get.S b; drop.S b", "get.S s"], ""),
    ("p=mkp; shr p s; copy.S s z", ["<set|sete> p", "wait.S s; drop.S s", "wait.S z; drop.S z"], ""),
    ("p=mkp; c=next p x=q1", ["<set|sete|dropp> p", "xrunb q1", "wait c; get c"], ""),
    ("p=mkp; c=<then|next> p x=q1", ["set p", "aws 1; <xrunb|xdrop> q1", "sig 1; get c"], ""),
    ("p=mkp; c=then p", ["<set|dropp> p", "wait c"], "get c"),
    ("p=mkp", ["wait p"], ""),
    ("p=mkp; shr p s", ["get.S s", "wait.S s"], ""),
    ("p=mkp; c=next p", ["get c", "awaiten p"], ""),
    ("p=mkp; shr p s; c=then.S s; n=note.S s", ["<set|dropp> p", "wait.S s", "get c"], "get.S s"),
    ("p=mkp; q=mkp; c=<all|any> [p q]", ["set p", "wait.C c; drop.C c", "<set|dropp> q"], ""),
    ("p=mkp; q=mkp; c=all [p q]", ["set p", "wait.C c"], ""),
    ("a=async x=q1", ["<xrunb|xdrop> q1", "wait a; get a"], ""),
    ("a=async x=q1", ["wait a"], "xrun q1; get a"),
    ("t=task r=<v|e>; getfk t f", ["<call|dropk> t", "wait f; get f"], ""),
    ("q=mkp; t=task r=fut ro=q; getfk t f", ["call t; dropk t", "wait f; get f", "<set|dropp> q"], ""),
    ("p=mkp; i=ithen p", ["set p; <set|sete|dropp> i", "wait i; get i"], ""),
    ("p=mkp; q=mkp", ["set p; get q", "get p; set q"], ""),
    ("p=mkp; q=mkp", ["get q; set p", "get p; set q"], ""),
    ("p=mkp", ["<movep q p|set p>", "wait p; wait p; get p"], "", {"pre2": "q=mkp vr=leg"}),
    ("p=mkp; det p d; shr d s", ["<set|dropp> p", "wait.S s", "get.S s"], ""),
    ("p=mkp; w=tw p", ["<set|dropp> p", "wait p; get p", "twait w d=5"], ""),
]

P["C04"] = [
    ("p=mkp; a=note p; b=note p x=q1; c=note p; d=note p; e=note p x=q2; f=note p; g=note p; h=then p", ["<set|sete|dropp> p", "xrunb q1"], "xrun q2; get h"),
    ("p=mkp; shr p s; a=then.S s; b=next.S s; c=note.S s; d=then.S s x=q1; e=next.S s; f=then.S s", ["set p", "g=then.S s; h=note.S s"], "xrun q1; get a; get b; get d; get e; get f; get g"),
    ("p=mkp", ["<set|sete|dropp> p", "c=<then|next> p; get c"], ""),
    ("p=mkp; shr p s", ["<set|sete|dropp> p", "a=then.S s", "b=next.S s; n=note.S s"], "get a; get b"),
    ("p=mkp; shr p s", ["set p", "a=then.S s x=q1", "b=next.S s x=q2; n=note.S s x=q1"],
     "xrun q1; xrun q2; xrun q1; get a; get b"),
    ("p=mkp; shr p s; a=then.S s; n=note.S s; m=note.S s lv=1", ["<set|sete> p", "b=then.S s"], "get a; get b"),
    ("p=mkp; n=note p; m=note p lv=1", ["<set|dropp> p", "o=note p x=q1; r=note p"], "xrun q1; xrun q1"),
    ("p=mkp; shr p s; a=then.S s {b=then.S s; n=note.S s x=q1}", ["<set|sete> p", "c=next.S s"], "get a; get b; get c; xrun q1"),
    ("p=mkp; a=then p; b=next a; c=then b x=q1; d=next c", ["set p", "xrunb q1", "get d"], ""),
    ("p=mkp; shr p s; a=then.S s; b=next.S s; c=then.S s; d=next.S s x=q1; e=note.S s; f=then.S s", ["<set|sete> p", "g=then.S s"],
     "xrun q1; get a; get b; get c; get d; get f; get g"),
    ("p=mkp vr=canc; shr p s; a=then.S s; b=then.S s; drop a", ["set p", "c=next.S s"], "get b; get c"),
    ("p=mkp vr=canc; shr p s; a=then.S s", ["set p", "drop a; b=then.S s", "c=then.S s; drop c"], "get b"),
    ("p=mkr r=<v|e>", [], "n=note p <xi=1|x=q1|x=inl>; c=then p <xi=1|x=q1|x=inl>; xrun q1; xrun q1; get c"),
    ("p=mkr r=<v|e>; shr p s", [], "a=then.S s; b=next.S s; n=note.S s; isr a; isr b; get a; get b"),
    ("p=mkp; c=then p; isr c", [], "<set|sete|dropp> p; isr c; get c"),
    ("p=mkp; q=mkp; c=then p {set q}; d=next q", ["set p", "get d", "n=note c"], "get c"),
    ("p=mkp; shr p s", ["set p", "a=then.S s", "b=then.S s", "n=note.S s"], "get a; get b"),
    ("t=task; getfk t f; shr f s; c=then.S s", ["<call|dropk> t", "d=then.S s", "n=note.S s"], "get c; get d"),
    ("q=mkp; t=task r=fut ro=q; getfk t f; c=then f", ["call t", "<set|dropp> q", "get c"], ""),
    ("p=mkp; q=mkp; c=all [p q]; d=thena c [x y]", ["set p", "set q"], "get d"),
    ("p=mkp; n=note p x=<q1|nul|inl>", ["set p", "get p"], "xrun q1"),
    ("p=mkp; i=ithen p x=q1 {set i}", ["<set|sete> p", "xrunb q1; xrun q1", "get i"], ""),
]

P["C05"] = [
    ("p=mkp; a=next p; b=next a; c=then b; d=next c; e=then d; f=next e; g=next f; h=then g", ["<set|sete|dropp> p", "get h"], ""),
    ("p=mkp; a=next p; b=then a r=<v|e>; c=next b x=q1; d=next c; e=then d x=q2; f=next e", ["<set|sete> p", "xrunb q1", "xrunb q2"], "get f"),
    ("p=mkp; c=<then|next> p vr=<hv|hb> r=<v|e>", ["<set|sete|dropp> p", "get c"], ""),
    ("p=mkp; c=<then|next> p vr=<hv|hb> r=<v|e> x=q1", ["set p", "xrunb q1", "get c"], ""),
    ("p=mkp; shr p s", ["<set|sete> p", "c=<then|next>.S s vr=<hv|hb>; get c", "d=next.S s vr=hb; get d"], ""),
    ("p=mkp; a=next p; b=next a; c=then b", ["<set|sete|dropp> p", "get c"], ""),
    ("p=mkp; a=<then|next> p r=<e|fe>; b=next a; c=then b", ["set p", "get c"], ""),
    ("p=mkp; shr p s; a=then.S s; b=next.S s r=<v|e>; c=next b", ["<set|sete> p", "get c", "get a"], "get.S s"),
    ("p=mkp; i=ithen p {<set|sete|dropp> i}; j=then i", ["<set|sete|dropp> p", "get j"], ""),
    ("p=mkp; shr p s; i=ithen.S s {<set|sete|dropp> i}; j=next i", ["<set|sete> p", "get j"], "get.S s"),
    ("p=mkp; i=ithen p", ["<set|sete> p; <set|sete|dropp> i", "get i"], ""),
    ("p=mkp; a=next p x=q1; b=then a x=q1", ["<set|sete> p", "xrunb q1; xrunb q1", "get b"], ""),
    ("p=mkp; a=next p x=q1; b=next a x=q2; c=next b", ["<set|sete|dropp> p", "xrunb q1", "xrunb q2", "get c"], ""),
    ("p=mkr r=<v|e>", [], "a=<then|next> p; b=<then|next> a; get b"),
    ("p=mkr r=<v|e>; shr p s", [], "a=<then|next>.S s r=<v|e>; b=<then|next> a; get b; get.S s"),
    ("p=mkp; c=then p keep=1 b=k", ["<set|sete|dropp> p", "get c"], "get k"),
    ("p=mkp; shr p s; c=then.S s keep=1 b=k", ["<set|sete> p", "get c"], "get.S k; get.S s"),
    ("p=mkp; a=<then|next> p <x=inl|xi=1> lv=1; b=<then|next> a", ["set p", "get b"], ""),
    ("p=mkp; a=next p; b=next a; c=next b; d=next c; e=next d; f=then e", ["<set|sete> p", "get f"], ""),
    ("p=mkp; a=next p x=<nul|inl>; b=next a; c=then b", ["<set|sete> p", "get c"], ""),
    ("t=task r=<v|e>; getfk t f; a=next f; b=then a", ["<call|dropk> t", "get b"], ""),
    ("p=mkp; q=mkp; shr q s; a=next p r=sfut ro=s; b=next.S a; c=then.S a", ["set p", "<set|sete> q"], "get b; get c"),
    ("p=mkp; shr p s; a=then.S s; b=then.S s; c=next.S s; d=next.S s", ["<set|sete> p", "get a; get b", "get c; get d"], ""),
    ("p=mkp; i=ithen p x=q1", ["<set|dropp> p", "xrunb q1; set i", "get i"], ""),
]

P["C06"] = [
    ("q=mkp; p=mkp; c=<then|next> p r=fut ro=q", ["<set|sete|dropp> p", "<set|sete|dropp> q", "get c"], ""),
    ("q=mkp; shr q s; copy.S s z; p=mkp; c=<then|next> p r=sfut ro=s lv=<0|1>", ["<set|sete> p", "<set|dropp> q", "get.S c"], "get.S z"),
    ("q=mkp; p=mkp; shr p s; c=<then|next>.S s r=fut ro=q", ["set p", "<set|sete> q", "isr c; get c"], ""),
    ("p=mkp; c=<then|next> p r=<inv|fe>", ["<set|sete> p", "isr c; get c"], ""),
    ("p=mkp; c=<then|next> p r=sinv", ["<set|sete> p", "isr.S c; get.S c"], ""),
    ("p=mkp; c=<then|next> p r=inv; d=then c", ["set p", "get d"], ""),
    ("a=async r=<inv|fe> x=<in|q1|inl>", ["xrun q1", "isr a"], "xrun q1; get a"),
    ("a=async r=sinv x=<in|q1|inl>", ["xrun q1", "isr.S a"], "xrun q1; get.S a"),
    ("q=mkp; a=async r=fut ro=q x=<q1|inl|in>", ["xrun q1", "<set|sete|dropp> q"], "xrun q1; get a"),
    ("q=mkp; shr q s; a=async r=sfut ro=s lv=<0|1> x=q1", ["xrunb q1", "<set|dropp> q", "get.S a"], ""),
    ("q=mkp; t=task r=fut ro=q; getfk t f", ["call t; dropk t", "<set|sete|dropp> q", "get f"], "call t"),
    ("q=mkp; shr q s; copy.S s z; t=task r=sfut ro=s lv=1; getfk t f", ["call t; dropk t", "<set|dropp> q", "get.S f"], "get.S z; get.S s"),
    ("q=mkp; t=task r=fut ro=q; getfk t f; call t; dropk t", ["<set|sete|dropp> q", "get f"], ""),
    ("q=mkr r=<v|e>; t=task r=fut ro=q; getfk t f", ["call t", "get f"], ""),
    ("q=mkr r=<v|e>; p=mkp; c=<then|next> p r=fut ro=q", ["set p", "get c"], ""),
    ("q=mkr; t=task r=<inv|fe>; getfk t f", ["call t", "isr f"], "get f"),
    ("z=mkp; q=mkp; p=mkp; c=then p r=fut ro=q; d=next c r=fut ro=z", ["set p", "<set|sete> q", "set z", "get d"], ""),
    ("q=mkp; p=mkp; c=then p r=fut ro=q; a=async r=fut ro=c x=q1", ["set p", "set q", "xrunb q1", "get a"], ""),
    ("p=mkp; q=mkp vr=canc; c=then p r=fut ro=q; set p", ["drop c", "set q"], "set q"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=then p r=fut ro=q", ["drop c", "set p", "set q"], "set q"),
    ("p=mkp; q=mkp; c=next p r=fut ro=q; d=then c", ["set p", "set q; awaiten p", "get d"], ""),
    ("p=mkp; q=mkp; c=then p r=fut ro=q; shr c s; w=tw.S s", ["set p", "<set|sete> q", "twait w d=9; isr.S s"], "get.S s"),
    ("q=mkp; x=next q x=q1; p=mkp; c=then p r=fut ro=x", ["set p", "set q", "xrunb q1", "get c"], ""),
    ("q=mkp; x=next q x=q1; p=mkp; c=then p r=fut ro=x; set p; set q", ["xdrop q1", "get c"], ""),
    ("q=mkp; z=mkp; w=any [q z]; d=thena w [x y]; p=mkp; c=then p r=fut ro=d", ["set p", "set q", "get c"], ""),
    ("p=mkp; c=then p r=fut ro=q {q=mkp; set q}", ["set p", "get c"], ""),
    ("p=mkp; c=then p r=fut ro=q {q=async x=q1}", ["set p", "get c", "xrunb q1"], ""),
]

P["C07"] = [
    ("p=mkp vr=<canc|alloc>; c=<then|next> p", ["dropp p", "get c"], ""),
    ("p=mkp; shr p s; n=note.S s", ["dropp p", "get.S s", "c=<then|next>.S s"], "get c"),
    ("p=mkp; q=mkp; movep q p", ["get p", "set p", "get q"], ""),
    ("p=mkp; q=mkp", ["movep q p", "get p", "n=note q"], "set p; get q"),
    ("t=task; getfk t f", ["dropk t", "get f"], ""),
    ("t=task; u=task; getfk t f; getfk u g", ["mvk t u; call u", "get f", "get g"], "validk t; validk u"),
    ("t=task; u=task; getfk t f; getfk u g", ["swapk t u; dropk t", "get f; get g", ], "call u; get f"),
    ("q=mkp; t=task r=fut ro=q; getfk t f; c=then f", ["<call|validk> t; dropk t", "set q", "get c"], ""),
    ("a=async x=<q1|nul>; c=then a", ["xdrop q1", "get c"], ""),
    ("p=mkp; shr p s; c=<then|next|ithen>.<F p|S s> x=nul xi=1; d=then c", ["<set|sete|dropp> p", "get d"], ""),
    ("p=mkp; c=<then|next> p x=<q1|nul>; d=then c", ["<set|sete> p; xdrop q1", "get d"], ""),
    ("p=mkp; c=<then|next|ithen> p x=q1; d=next c; set p", ["xclr q1", "get d"], ""),
    ("p=mkp; i=ithen p", ["<set|dropp> p; dropp i", "get i"], ""),
    ("p=mkp; i=ithen p {dropp i}; j=next i", ["<set|sete> p", "get j"], ""),
    ("p=mkp; <set|sete> p; dropp p", ["get p"], ""),
    ("p=mkp", ["<set|sete> p; dropp p", "get p"], ""),
    ("t=task r=<v|e>; getfk t f", ["call t; dropk t", "get f"], ""),
    ("p=mkp; q=mkp; c=<all|any> [p q]; d=thena c [x y]", ["dropp p", "<dropp|set> q", "get d"], "isr x; isr y"),
    ("p=mkp; w=tw p", ["dropp p", "twait w d=9", "wait p"], "get p"),
    ("p=mkp; det p d", ["dropp p", "get d"], ""),
    ("p=mkp; c=then p; det c d; drop d", ["dropp p"], ""),
    ("p=mkp vr=<leg|legc|lega>; getf p f; c=then f", ["dropp p", "get c"], ""),
    ("p=mkp vr=leg; set p; getf p f; dropp p", [], "get f"),
    ("a=async x=q1; b=next a x=q1; c=next b x=q1; xrun q1", ["xclr q1", "get c"], ""),
    ("p=mkp; q=mkp; c=then p {dropp q}; d=next q", ["<set|dropp> p", "get d"], "get c"),
    ("p=mkp; q=mkp; shr q s; c=next p r=sfut ro=s; set p", ["dropp q", "get.S c"], ""),
    ("p=mkp; n=note p x=<nul|q1>", ["<dropp|set> p; xdrop q1", "get p"], ""),
    ("p=mkp", ["dropp p", "waitfor p d=5; get p"], ""),
    ("p=mkp; shr p s; a=then.S s; b=next.S s; c=next b", ["dropp p", "get a", "get c"], "get.S s"),
]

P["C08"] = [
    ("p=mkp vr=canc", ["<set|sete> p", "drop p"], "set p"),
    ("p=mkp vr=canc; c=<then|next> p", ["<set|sete|dropp> p", "drop c"], ""),
    ("p=mkp vr=canc; a=next p; b=next a; c=then b x=q1", ["set p", "drop c", "xrun q1"], "xrun q1"),
    ("p=mkp vr=canc; shr p s; copy.S s z", ["drop.S s", "drop.S z", "set p"], "awaiten p"),
    ("p=mkp vr=canc; shr p s; a=then.S s; b=next.S s; drop.S s", ["drop a", "drop b", "set p"], "awaiten p"),
    ("p=mkp vr=canc; shr p s; a=then.S s; b=next.S s", ["drop a; drop.S s", "set p"], "get b; awaiten p"),
    ("t=task; getfk t f", ["call t", "drop f"], "call t"),
    ("t=task; getfk t f; c=next f; d=then c", ["call t", "drop d"], ""),
    ("t=task; getfk t f; drop f", [], "call t; call t; validk t; getfk t g"),
    ("a=async x=q1", ["xrunb q1", "drop a"], ""),
    ("a=async x=q1; b=next a x=q2; c=then b", ["xrunb q1", "xrun q2", "drop c"], "xrun q2"),
    ("a=async x=q1; b=next a; drop b", [], "xrun q1"),
    ("p=mkp vr=canc; c=then p x=q1; set p", ["drop c", "xrunb q1"], ""),
    ("p=mkp vr=canc; c=next p x=q1; sete p", ["drop c", "xrun q1"], ""),
    ("p=mkp vr=canc; q=mkp vr=canc; c=then p r=fut ro=q", ["set p", "set q", "drop c"], "awaiten p; awaiten q"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=next p r=fut ro=q; d=next c; set p", ["drop d", "set q"], "awaiten q"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=all [p q]", ["set p", "drop.C c", "set q"], ""),
    ("p=mkp vr=canc; q=mkp vr=canc; c=any [p q]; d=thena c [x y]", ["set p", "drop d"], "awaiten q"),
    ("p=mkp vr=canc; n=note p; m=note p x=q1; drop p", [], "set p; awaiten p"),
    ("p=mkp vr=canc; shr p s; n=note.S s; w=tw.S s", ["drop.S s", "set p"], "twait w d=2"),
    ("p=mkp vr=canc; i=ithen p", ["drop i", "set p; set i"], "set i; awaiten p"),
    ("p=mkp vr=canc; i=ithen p x=q1; j=next i", ["drop j", "set p", "xrun q1"], "xrun q1; set i"),
    ("p=mkp vr=canc; i=ithen p; set p", ["drop i", "awaiten i; set i"], "awaiten i"),
    ("p=mkp vr=canc; shr p s; a=next.S s; b=next a; drop.S s", ["drop b", "dropp p"], ""),
    ("p=mkp vr=canc; c=then p {drop c2}; q=mkp vr=canc; c2=next q", ["set p", "set q"], "get c; awaiten q"),
    ("p=mkp vr=canc; q=mkp; movep q p", [], "set p; get q; drop p"),
    ("p=mkp vr=canc; q=mkp; mv q p", [], "awaiten p; set p; set q; get p"),
    ("p=mkp vr=canc; q=mkp vr=canc; shr p s; shr q z; copy.S z s", [], "awaiten p; awaiten q; set q; get.S s"),
    ("p=mkp vr=canc; c=then p", ["drop c", "awaiten p; set p; awaiten p"], ""),
    ("t=task; getfk t f; shr f s; c=then.S s x=q1", ["call t", "drop.S s; drop c", "xrun q1"], "xrun q1"),
    ("p=mkp vr=legc; getf p f; c=next f", ["drop c", "set p"], ""),
]

P["C09"] = [
    ("p=mkp vr=canc; c=<then|next> p; det c d; drop d", ["<set|sete|dropp> p"], "awaiten p"),
    ("p=mkp vr=canc; c=<then|next> p", ["<set|sete|dropp> p", "det c d; drop d"], ""),
    ("p=mkp vr=canc; det p d", ["<set|dropp> p", "get d"], ""),
    ("p=mkp vr=canc; det p d; drop d", ["<set|sete> p"], "awaiten p; set p"),
    ("p=mkp vr=canc; det p d; drop d", [], "awaiten p; <set|dropp> p; awaiten p"),
    ("p=mkp vr=canc; a=next p x=q1; b=next a x=q2; det b d; drop d", ["<set|sete> p", "xrunb q1", "xrunb q2"], ""),
    ("p=mkp vr=canc; a=next p x=q1; det a b; c=next b; drop c", ["set p", "xrunb q1"], ""),
    ("p=mkp vr=canc; a=next p; det a b; c=next b", ["set p", "drop c"], ""),
    ("p=mkp vr=canc; shr p s; copy.S s z; det.S s d; drop.S d; drop.S z", ["<set|dropp> p"], "awaiten p"),
    ("p=mkp vr=canc; shr p s; c=then.S s; det c d; drop d; drop.S s", ["<set|sete> p", "awaiten p"], ""),
    ("p=mkp vr=canc; shr p s; det.S s d", ["set p", "get.S d", "c=next.S d"], "get c"),
    ("t=task; getfk t f; det f d; drop d", ["call t", "validk t"], ""),
    ("t=task; getfk t f; det f d; drop d", [], "<call|dropk> t"),
    ("t=task; getfk t f", ["call t", "det f d; drop d"], ""),
    ("a=async x=q1; det a d; drop d", ["<xrunb|xdrop> q1"], ""),
    ("a=async x=q1", ["xrunb q1", "det a d; drop d"], ""),
    ("q=mkp vr=canc; t=task r=fut ro=q; getfk t f; det f d; drop d", ["call t", "<set|dropp> q"], "awaiten q"),
    ("q=mkp vr=canc; p=mkp vr=canc; c=then p r=fut ro=q; det c d; drop d", ["set p", "<set|sete> q"], ""),
    ("p=mkp vr=canc; i=ithen p; det i d; drop d", ["set p; awaiten i; <set|dropp> i"], ""),
    ("p=mkp vr=canc; q=mkp vr=canc; c=all [p q]; d=thena c [x y]; det d e; drop e", ["set p", "set q"], "isr x; isr y"),
    ("p=mkp vr=canc; det p d; c=next d; det c e; drop e", ["<set|sete> p"], ""),
    ("p=mkp vr=canc; det p d; det d e; drop e", ["set p"], ""),
    ("p=mkp vr=canc; det p d; c=then d", ["set p", "drop c"], "awaiten p"),
    ("p=mkp vr=canc; det p d; n=note d; w=tw d; drop d", ["<set|dropp> p", "twait w d=9"], ""),
    ("p=mkr; det p d", [], "get d"),
    ("p=mkp vr=canc; c=next p x=nul; det c d; drop d", ["set p"], ""),
    ("p=mkp vr=canc; shr p s; c=next.S s; det c d; e=next.S s; drop e; drop.S s; drop d", ["set p"], ""),
]

P["C10"] = [
    ("p=mkp vr=<canc|legc>; getf p p", ["<set|sete|dropp> p", "drop p"], "awaiten p"),
    ("p=mkp vr=canc; awaiten p; shr p s; copy.S s z; drop.S s; awaiten p", ["drop.S z", "awaiten p; awaiten p"], "awaiten p"),
    ("p=mkp vr=canc; c=<then|next> p", ["drop c", "awaiten p; set p"], "awaiten p"),
    ("p=mkp vr=canc; c=then p; awaiten p; d=next c x=q1; awaiten p; drop d", [], "awaiten p; set p"),
    ("p=mkp vr=canc; shr p s; c=then.S s; drop.S s; awaiten p", ["drop c", "awaiten p"], "awaiten p"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=<all|any> [p q]; awaiten p", ["drop.C c", "awaiten q; set p"], ""),
    ("p=mkp vr=canc; q=mkp vr=canc; c=all [p q]; d=thena c [x y]; drop d", ["set p", "set q"], "awaiten p; awaiten q"),
    ("p=mkp vr=canc; det p d; drop d; awaiten p", ["dropp p"], ""),
    ("p=mkp vr=canc; c=next p; det c d; drop d", [], "awaiten p; set p; awaiten p"),
    ("p=mkp vr=canc; n=note p", ["drop p", "awaiten p; set p"], "awaiten p"),
    ("p=mkp vr=canc; w=tw p; drop p", [], "awaiten p; dropp p; twait w d=2"),
    ("p=mkp vr=canc; <set|sete> p; drop p", [], "awaiten p; dropp p"),
    ("p=mkp vr=canc; dropp p", ["drop p"], ""),
    ("p=mkp vr=canc; movep p q", ["drop p", "awaiten q; set q"], "awaiten p; getf p g"),
    ("p=mkp vr=canc; q=mkp vr=canc; movep q p; drop p", ["drop q", "awaiten p"], "awaiten p"),
    ("p=mkp vr=canc; q=mkp vr=canc; r=mkp; c=then r r=fut ro=p; set r; awaiten p", ["drop c", "awaiten p"], "awaiten p"),
    ("p=mkp vr=canc; t=task r=fut ro=p; getfk t f; awaiten p; call t; dropk t; awaiten p", ["drop f", "set p"], "awaiten p"),
    ("p=mkp vr=canc; t=task r=fut ro=p; getfk t f; dropk t; awaiten p; drop p", [], "awaiten p"),
    ("p=mkp vr=canc; i=ithen p; awaiten p", ["drop i", "set p; awaiten i"], "awaiten i"),
    ("p=mkp vr=canc; i=ithen p; set p; awaiten i", ["drop i", "awaiten i; set i"], "awaiten i"),
    ("p=mkp vr=canc; get p", [], "", {"skip": 1}),
    ("p=mkp vr=canc", ["get p", "awaiten p; set p; awaiten p"], ""),
    ("p=mkp vr=canc", ["set p", "c=then p x=q1; drop c", "awaiten p"][:2], "awaiten p"),
    ("p=mkp vr=canc; c=next p x=q1", ["set p", "drop c", "xrun q1"], "awaiten p"),
    ("p=mkp vr=legc; awaiten p; getf p f; awaiten p; drop f; awaiten p", [], "set p"),
    ("p=mkp vr=leg; awaiten p", [], "set p; awaiten p"),
    ("p=mkp vr=canc; shr p s; n=note.S s; c=then.S s; drop.S s; drop c", [], "awaiten p"),
    ("p=mkp vr=canc; set p thr=1", ["drop p", "awaiten p"], "awaiten p"),
]

P["C11"] = [
    ("p=mkp; q=mkp; r=mkp; t=mkp; u=mkp; c=all [p q r t u] vr=<vec|it>; set r", ["set u; sete p", "set t", "set q"], "geta c [a b d e f]; get a; get b; get d; get e; get f"),
    ("p=mkp; q=mkp; c=all [p q] vr=<vec|it|al|tup>", ["<set|sete|dropp> p", "<set|sete> q", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; r=mkp; c=all [p q r] vr=<vec|it|tup>; d=thena c [x y z] <|vr=nx>", ["set p", "sete q", "set r"], "get d; get x; get y; get z"),
    ("p=mkp; q=mkp; c=all [p q] vr=<vec|tup>", ["set p", "isr.C c; isr.C c", "set q"], "isr.C c; geta c [x y]; get x; get y"),
    ("c=all [] vr=<vec|tup>", [], "isr.C c; geta c []"),
    ("c=all [] vr=<vec|tup>; d=thena c []", [], "get d"),
    ("p=mkp; c=all [p] vr=<vec|it|tup|al>", ["<set|dropp> p", "geta c [x]; get x"], ""),
    ("p=mkp; shr p s; q=mkp; c=all [s q] ks=SF vr=tup", ["<set|sete> p", "set q", "wait.C c"], "geta c [x y]; get.S x; get y; get.S s"),
    ("p=mkp; shr p s; copy.S s t; c=all [s t s] ks=SSS vr=<vec|it>", ["<set|dropp> p", "geta c [x y z]; get.S x; get.S z"], "get.S y"),
    ("p=mkr; q=mkr r=e; c=all [p q] vr=<vec|tup>", [], "isr.C c; geta c [x y]; get x; get y"),
    ("p=mkr; q=mkp; c=all [p q]; isr.C c", ["<set|dropp> q", "geta c [x y]; get x; get y"], ""),
    ("p=mkp; q=mkp; c=then p x=q1; d=all [c q] vr=tup; e=thena d [x y] x=q1", ["set p", "set q", "xrunb q1; xrunb q1"], "get e; get x; get y"),
    ("p=mkp; q=mkp; set p; c=all [p q]", ["set q", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=all [p q]", ["drop.C c", "set p", "set q"], ""),
    ("p=mkp; q=mkp; c=all [q p] vr=<vec|it|tup>; d=thena c [y x]", ["set p", "<set|dropp> q", "get d"], "get y; get x"),
    ("p=mkp; q=mkp; r=mkp; c=all [p q]; d=thena c [x y]; e=all [d r] vr=tup", ["set p", "set q", "set r"], "geta e [z w]; get z; get w; get x"),
    ("p=mkp; q=mkp; r=mkp; o=mkp; c=all [p q r o] vr=<vec|it>", ["set p; set r", "sete q; set o"], "geta c [x y z w]; get x; get y; get z; get w"),
    ("t=task; getfk t f; a=async x=q1; c=all [f a] vr=tup", ["call t", "xrunb q1", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; c=all [p q]", ["set p; set q", "wait.C c"], "geta c [x y]; n=next x x=q1; xrun q1; get n; get y"),
]

P["C12"] = [
    ("p=mkp; q=mkp; r=mkp; t=mkp; u=mkp; c=any [p q r t u] vr=<vec|it>", ["set u", "set t", "dropp p"], "geta c [a b d e f]; set r; sete q; get a; get b; get d; get e; get f"),
    ("p=mkp; q=mkp; r=mkp; t=mkp; set r; set t; c=any [p q r t] vr=<vec|it>; d=thena c [a b e f]", [], "isr e; get f; get d; set p; set q; get a; get b"),
    ("p=mkp; q=mkp; c=any [p q] vr=<vec|it|tup>", ["<set|sete|dropp> p", "<set|sete> q", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; c=any [p q] vr=<vec|it|tup>", ["<set|dropp> q", "geta c [x y]; isr x; isr y"], "set p; get x; get y"),
    ("p=mkp; q=mkp; r=mkp; c=any [p q r] vr=<vec|it|tup>; d=thena c [x y z] <|vr=nx>", ["set p", "sete q", "set r"], "get d; get x; get y; get z"),
    ("c=any [] vr=<vec|tup>", [], "isr.C c; geta c []"),
    ("c=any [] vr=<vec|tup>; d=thena c []", [], "get d"),
    ("p=mkp; c=any [p] vr=<vec|it|tup>", ["<set|dropp> p", "geta c [x]; get x"], ""),
    ("p=mkp; shr p s; q=mkp; c=any [s q] ks=SF vr=tup", ["<set|sete> p", "set q", "wait.C c"], "geta c [x y]; get.S x; get y; get.S s"),
    ("p=mkp; shr p s; copy.S s t; c=any [s t] ks=SS vr=<vec|it|tup>", ["<set|dropp> p", "geta c [x y]; get.S x"], "get.S y"),
    ("p=mkr; q=mkp; c=any [<p q|q p>] vr=<vec|tup>", ["set q", "geta c [x y]; isr x; isr y"], "get x; get y"),
    ("p=mkr; q=mkr r=e; c=any [p q] vr=<vec|it|tup>", [], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; c=any [p q]; isr.C c", ["set p", "isr.C c; isr.C c", "set q"], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; c=then p x=q1; d=any [c q] vr=tup; e=thena d [x y] x=q1", ["set p", "set q", "xrunb q1"], "xrun q1; get e"),
    ("p=mkp vr=canc; q=mkp vr=canc; c=any [p q]", ["drop.C c", "set p", "set q"], ""),
    ("p=mkp vr=canc; q=mkp vr=canc; c=any [p q]; d=thena c [x y]", ["set p", "get d; drop x; drop y"], "awaiten q; awaiten p"),
    ("p=mkp; q=mkp; r=mkp; c=any [p q]; d=thena c [x y]; e=any [d r] vr=tup", ["set p", "set q", "set r"], "geta e [z w]; get x"),
    ("p=mkp; q=mkp; r=mkp; o=mkp; c=any [p q r o] vr=<vec|it>", ["set r", "set q", "wait.C c"], "geta c [x y z w]; get y; get z"),
    ("t=task; getfk t f; a=async x=q1; c=any [f a] vr=tup", ["call t", "xrunb q1", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp; q=mkp; c=any [p q]; d=thena c [x y]; e=next d", ["set p; set q", "get e"], "n=then x x=q1; m=next y; xrun q1; get n; get m"),
    ("p=mkp; q=mkp; c=any [p q]", ["set p; set p", "geta c [x y]", "dropp q"], "get x; get y"),
]

P["C16"] = [
    ("p=mkp; shr p s; w=tw.S s; cpw w z", ["<set|sete|dropp> p", "twait w d=3", "twait z d=2; twait w d=1 vr=until"], ""),
    ("p=mkp; w=tw p", ["<set|sete|dropp> p", "twait w d=<1|5>; isr p"], "twait w d=1; get p"),
    ("p=mkp; w=tw p", [], "twait w d=2; twait w d=1 vr=until; <set|dropp> p; twait w d=3; twait w d=3; get p"),
    ("p=mkp; w=tw p; cpw w z", ["<set|dropp> p", "twait w d=3; twait w d=3", "twait z d=2 vr=until; isr p"], ""),
    ("p=mkp; shr p s; w=tw.S s; z=tw.S s", ["<set|sete> p", "twait w d=3; get.S s", "twait z d=2"], ""),
    ("p=mkr r=<v|e>; w=tw p", [], "twait w d=3; twait w d=3; get p"),
    ("p=mkp", ["<set|dropp> p", "w=tw p; twait w d=4; isr p"], "twait w d=1"),
    ("p=mkp", ["<set|sete|dropp> p", "waitfor p d=<1|5>; waitfor p d=2 vr=until; isr p"], "get p"),
    ("p=mkp; shr p s", ["<set|dropp> p", "waitfor.S s d=3; get.S s", "waitfor.S s d=2 vr=until"], ""),
    ("p=mkr r=<v|e>", [], "waitfor p d=1; waitfor p d=1 vr=until; get p"),
    ("p=mkp", [], "waitfor p d=1; waitfor p d=1 vr=until; set p; waitfor p d=1; get p"),
    ("p=mkp; w=tw p; mv p f", ["<set|dropp> p", "twait w d=3; isr f"], "twait w d=2"),
    ("p=mkp; w=tw p; drop p", ["<set|dropp> p", "twait w d=3"], "twait w d=2; dropw w"),
    ("p=mkp; w=tw p; c=then p", ["<set|dropp> p", "twait w d=3; twait w d=1", "get c"], ""),
    ("p=mkp; w=tw p; c=then p x=q1; drop c", ["set p", "twait w d=3"], "twait w d=1"),
    ("p=mkp; w=tw p", ["set p", "dropw w; get p"], ""),
    ("p=mkp; w=tw p; cpw w z", ["set p", "dropw w; drop p", "twait z d=3"], ""),
    ("p=mkp; c=next p x=q1; w=tw c", ["set p", "xrunb q1", "twait w d=5; isr c"], "get c"),
    ("q=mkp; t=task r=fut ro=q; getfk t f; w=tw f", ["call t", "<set|dropp> q", "twait w d=5; isr f"], "get f"),
    ("p=mkp; q=mkp", ["set p; dropp q", "v=tw p; w=tw q; twait v d=2; twait w d=2"], "twait v d=1; twait w d=1"),
    ("p=mkp; det p d; w=tw d; drop d", ["<set|dropp> p", "twait w d=5"], "twait w d=1"),
    ("p=mkp", ["set p", "w=tw p; waitfor p d=2; twait w d=2; get p"], ""),
]

P["C17"] = [
    ("a=async x=<q1|q2|in|inl|nul> xi=<0|1> big=<0|1> lv=<0|1>", [], "xrun q1; xrun q2; xrun q1"),
    ("a=async x=q1", ["xrunb q1", "get a", "xrun q1"], "xrun q1"),
    ("p=mkp; c=<then|next|ithen> p x=<q1|inl|nul>", ["<set|sete|dropp> p", "xrun q1"], "xrun q1; xrun q1"),
    ("p=mkp", ["<set|sete> p", "c=<then|next> p x=q1; get c", "xrunb q1"], ""),
    ("p=mkp; shr p s", ["set p", "c=<then|next>.S s x=q1", "d=<then|next>.S s x=q2; n=note.S s x=q1"], "xrun q2; xrun q1; xrun q1; get c; get d"),
    ("p=mkr r=<v|e>; shr p s", [], "c=<then|next>.S s x=<q1|inl|nul>; n=note.S s x=q2; isr c; xrun q1; xrun q2; isr c"),
    ("p=mkr r=<v|e>", [], "n=note p x=<q1|inl|nul>; c=<then|next> p x=q2; isr c; xrun q2; xrun q1; get c"),
    ("p=mkp; n=note p x=<q1|inl|nul|in> lv=<0|1>", ["<set|dropp> p", "xrun q1"], "xrun q1"),
    ("p=mkp; a=then p x=q1; b=next a x=q2; c=then b x=q1", ["set p", "xrunb q1; xrunb q1", "xrunb q2"], "get c"),
    ("p=mkp; c=next p lv=<0|1> xi=<0|1>; d=then c lv=1", ["set p", "get d"], ""),
    ("p=mkp; c=next p lv=1 x=q1; d=then c lv=1 x=q1", ["set p", "xrunb q1; xrunb q1"], "get d"),
    ("p=mkp; q=mkp; c=any [p q]; d=thena c [x y] x=q1", ["set p", "set q"], "isr d; xrun q1; get d"),
    ("p=mkp; i=ithen p x=q1 {set i}", ["<set|sete> p", "xrunb q1", "get i"], ""),
    ("p=mkp; c=next p x=q1; set p", ["xrunb q1", "xrun q1", "get c"], ""),
    ("p=mkp; c=then p x=q1 {d=async x=q2; e=then d x=q1}", ["set p", "xrunb q1"], "xrun q2; xrun q1; get c; get e"),
    ("a=async x=q1 {b=async x=q1; c=async}; xrun q1", [], "isr a; isr b; xrun q1; get b"),
    ("p=mkp; c=next p x=q1; d=next c x=nul; e=then d", ["set p", "xrunb q1", "get e"], ""),
    ("q=mkp; p=mkp; c=then p r=fut ro=q x=q1; d=next c x=q2", ["set p; set q", "xrunb q1", "xrunb q2"], "get d"),
    ("a=async x=q1 big=1 lv=1 r=<v|e>; b=async x=q1 big=1", ["xrunb q1", "xrunb q1"], "get a; get b"),
]

P["C18"] = [
    ("p=mkp vr=<alloc|lega|canc|legc>; getf p p; c=then p", ["<set|sete|dropp> p", "<get|drop> c"], ""),
    ("p=mkp vr=alloc; shr p s; a=then.S s; b=next.S s; n=note.S s", ["<set|dropp> p", "drop a; drop.S s", "get b"], ""),
    ("p=mkp; q=mkp; c=<all|any> [p q] vr=<vec|it|al|tup>", ["set p", "<set|dropp> q", "drop.C c"], ""),
    ("p=mkp; q=mkp; c=<all|any> [p q] vr=<vec|al|tup>; d=thena c [x y]", ["set p", "drop d", "sete q"], ""),
    ("t=task r=<v|e>; getfk t f", ["<call|dropk> t", "<get|drop> f"], ""),
    ("q=mkp; t=task r=fut ro=q; getfk t f", ["call t; dropk t", "<set|dropp> q", "drop f"], ""),
    ("a=async x=<q1|nul|inl|in> big=1 lv=<0|1>; c=next a", ["<xrun|xdrop> q1", "<get|drop> c"], "xdrop q1", {"ql": 1}),
    ("p=mkp; c=<then|next> p x=q1; d=next c", ["<set|sete> p", "<xrun|xdrop> q1", "drop d"], ""),
    ("p=mkp vr=alloc; det p d; c=next d; drop c", ["<set|dropp> p"], ""),
    ("p=mkp; w=tw p; cpw w z", ["<set|dropp> p", "dropw w; drop p", "twait z d=2; dropw z"], ""),
    ("p=mkp", ["set p", "waitfor p d=2; drop p"], ""),
    ("p=mkp; i=ithen p keep=1 b=k", ["<set|dropp> p; <set|sete> i", "get i"], "get k"),
    ("p=mkp; n=note p <x=q1|x=nul|x=inl|xi=1> lv=<0|1>", ["<set|dropp> p", "drop p"], "xdrop q1"),
    ("p=mkp; q=mkp; c=then p r=fut ro=q; d=then c", ["set p", "drop d", "<set|dropp> q"], ""),
    ("p=mkp; shr p s; copy.S s z; c=then.S s keep=1 b=k", ["set p", "drop.S s; drop.S z", "<drop|get> c"], ""),
    ("p=mkp vr=lega; movep p q; getf q f", ["<set|dropp> q", "drop f"], ""),
    ("p=mkp vr=alloc; set p thr=1; set p", ["get p"], ""),
    ("t=task; u=task; getfk t f; getfk u g; mvk t u", ["<call|dropk> u", "drop f", "drop g"], ""),
    ("p=mkr r=<v|e>; shr p s; copy.S s z", ["drop.S s", "c=next.S z; drop c; drop.S z"], ""),
    ("p=mkp; a=next p; b=next a; c=next b; d=then c", ["<set|sete|dropp> p", "drop d"], ""),
    ("p=mkp vr=alloc; q=mkp vr=alloc; mv p q; drop q", ["set p", "set q"], ""),
    ("p=mkp; q=mkp; c=any [p q] vr=vec; d=thena c [x y]", ["set p", "get d; drop x; drop y", "dropp q"], ""),
]

P["C19"] = [
    ("t=task r=<v|e>; getfk t f", ["call t", "get f"], "call t; validk t; getfk t g; dropk t; validk t"),
    ("t=task; getfk t f", ["dropk t", "get f"], "call t; validk t; getfk t g"),
    ("t=task; getfk t f; drop f", [], "call t; validk t; call t"),
    ("t=task; call t; getfk t f", [], "get f; call t"),
    ("t=task; mvk t u; getfk u f", ["call u", "get f"], "call t; validk t; validk u; call u; getfk t g"),
    ("t=task; u=task; swapk t u; getfk t f; getfk u g", ["call t", "call u", "get f; get g"], ""),
    ("t=task; u=task; getfk t f; mvk u t", ["get f", "call t; validk u"], "getfk t g; get g; call u"),
    ("t=task; getfk t f; getfk t g", [], "validk t; call t; get f; valid g"),
    ("t=task r=<v|e>; getfk t f", ["call t", "drop f"], "call t"),
    ("t=task {call t2}; t2=task; getfk t f; getfk t2 g", ["call t", "get f; get g"], "call t2"),
    ("t=task {p=mkp; set p}; getfk t f; c=then f", ["call t", "get c"], ""),
    ("q=mkp; t=task r=fut ro=q; getfk t f", ["call t; call t", "set q", "get f"], "call t; validk t"),
    ("q=mkp; shr q s; t=task r=sfut ro=s; getfk t f", ["call t; call t", "set q", "get.S f"], "call t; getfk t g"),
    ("a=async r=<v|e> x=<in|q1|inl|nul> lv=<0|1> big=<0|1>", ["xrun q1"], "isr a; xrun q1; get a"),
    ("a=async x=q1; b=async x=q1 lv=1 big=1", ["xrunb q1", "xrunb q1", "get a"], "get b"),
    ("t=task; getfk t f; shr f s; copy.S s z; drop.S s", ["call t", "drop.S z"], "call t"),
    ("t=task lv=1; getfk t f", ["call t", "get f"], "call t"),
    ("t=task; mvk t u; mvk u v; getfk v f; swapk t v", ["call t", "get f"], "validk v; validk t; validk u"),
    ("t=task; getfk t f; det f d; drop d", ["call t"], "call t"),
    ("t=task; validk t; dropk t; validk t; call t; getfk t f; valid f", [], ""),
    ("t=task thr=1; getfk t f", ["call t; call t; <dropk|validk> t", "<drop|isr> f"], "call t"),
    ("t=task thr=1; getfk t f; c=<then|next> f", ["call t; dropk t", "get c"], ""),
    ("t=task vr=ref r=<v|e>; getfk t f", ["call t; call t", "get f"], ""),
]

P["C22"] = [
    ("p=mkp; valid p; mv p f; valid p; valid f", [], "get p; wait p; isr p; c=then p; d=next p; n=note p; det p g; i=ithen p; set p; get f; valid f; get f"),
    ("p=mkp; set p; get p", [], "valid p; get p; wait p; isr p; c=then p x=q1; d=next p; n=note p x=q1; det p g; valid c; valid d"),
    ("p=mkp; shr p s; valid p; valid.S s; copy.S s z; mv.S s y; valid.S s; valid.S z; valid.S y", [],
     "get.S s; wait.S s; isr.S s; c=then.S s; d=next.S s; n=note.S s; det.S s g; set p; get.S z; get.S y; valid.S z"),
    ("p=mkp; shr p s; c=<then|next|ithen>.S s; valid.S s; n=note.S s; valid.S s", ["set p", "get.S s; valid.S s"], "valid.S s; get.S s; <drop|get> c"),
    ("p=mkp; shr p s; det.S s d; valid.S s; valid.S d", ["set p"], "get.S d; get.S s; valid.S d"),
    ("p=mkp; det p d; valid p; valid d", ["set p"], "get d; get p"),
    ("p=mkp; c=<then|next|ithen> p; valid p; valid c", ["<set|sete> p"], "get p; valid c; isr p"),
    ("p=mkp vr=<leg|legc|lega>; getf p f; getf p g; valid g; valid f", ["<set|sete> p", "get f"], "getf p h; dropp p; getf p g; set p; sete p; awaiten p"),
    ("p=mkp; movep p q", [], "set p; sete p; getf p f; awaiten p; set q; getf q g; get p"),
    ("p=mkp; movep p q; q2=mkp; movep q2 p", [], "set p; get q2; set q; get p; awaiten q2"),
    ("p=mkp; shr p s; shr s2 z; valid.S z; mv q2 p2; valid p2", [], "get.S z; copy.S z y; valid.S y; copy.S y s; valid.S s; awaiten p; set p"),
    ("t=task; mvk t u; validk t; validk u", [], "call t; getfk t f; dropk u; validk u; call u; getfk u g"),
    ("q=mkp; set q; c=all [q]; d=thena c [x]", [], "valid.C c; valid d; valid x; get d; get x; get d; valid.C c; geta c [y]"),
    ("p=mkp; q=mkp; mv q p; valid q; valid p", [], "get q; set q; set p; get p; valid p"),
    ("p=mkr r=<v|e>; get p", [], "valid p; get p; isr p; wait p; c=then p; valid c"),
    ("p=mkr r=<v|e>; shr p s; get.S s; get.S s", ["get.S s", "get.S s"], "valid.S s"),
    ("a=async; valid a; get a; valid a", [], "get a; b=async x=q1; valid b; c=then b; valid b; valid c; xrun q1; get c; valid c"),
    ("p=mkp; shr p s; copy.S s z; get0=then.S z; valid.S z", ["set p", "get.S z", "get.S s"], "get.S z; get get0"),
    ("p=mkp; c=next p; n=note c; q=mkp; d=next q {valid c; isr c}", ["set p", "get.F d", "set q"], "valid c; get c"),
    ("p=mkp; shr p s; i=ithen.S s {valid.S s; get.S s; set i}", ["<set|sete> p", "get i"], "valid.S s; get.S s"),
]

P["C21"] = [
    ("p=mkp; o=co.<F|S> {aw.F p lv=<0|1>}", ["<set|sete|dropp> p", "get.<F|S> o"], "", {"pair": 1}),
    ("p=mkp", ["<set|sete|dropp> p", "o=co.<F|S> r=<v|e> {aw.F p lv=1}; get.<F|S> o"], "", {"pair": 1}),
    ("p=mkp; shr p s", ["<set|dropp> p", "o=co.F {aw.S s lv=1}; get o", "b=co.F {aw.S s lv=1}"], "get b; get.S s"),
    ("p=mkp; shr p s; o=co.F {aw.S s lv=1; aw.S s lv=1}; c=then o", ["<set|sete> p", "get c"], ""),
    ("p=mkp; q=mkp; o=co.F {aw.F p lv=1; aw.F q lv=1}", ["set p", "<set|dropp> q", "get o"], ""),
    ("p=mkp; q=mkp; o=co.F {aw.F p lv=1; set q}; d=next q", ["<set|sete> p", "get d"], "get o"),
    ("p=mkr r=<v|e>; o=co.<F|S> {aw.F p lv=1}", [], "isr.<F|S> o; get.<F|S> o", {"pair": 1}),
    ("o=co.<F|S> r=<v|e>", [], "isr.<F|S> o; get.<F|S> o", {"pair": 1}),
    ("p=mkp; o=co.F r=e {aw.F p lv=1}; n=next o", ["<set|dropp> p", "get n"], ""),
    ("p=mkp; o=co.F {aw.F p lv=1}; b=co.F {aw.F o lv=1}", ["<set|sete|dropp> p", "get b"], ""),
    ("p=mkp; o=co.S {aw.F p lv=1}; b=co.F {aw.S o lv=1}; c=co.F {aw.S o lv=1}", ["<set|sete> p", "get b", "get c"], ""),
    ("p=mkp; c=next p x=q1; o=co.F {aw.F c lv=1}", ["<set|sete> p", "xrunb q1", "get o"], ""),
    ("a=async x=q1; o=co.F {aw.F a lv=1}", ["<xrunb|xdrop> q1", "get o"], ""),
    ("p=mkp", ["<set|sete|dropp> p", "o=co.F {aw.F p lv=1}; drop o"], ""),
    ("p=mkp; o=co.F {aw.F p lv=1}; w=tw o", ["set p", "twait w d=5; isr o", "n=note o"], "get o"),
    ("p=mkp; q=mkp; o=co.F {aw.F p lv=1}; b=co.F {aw.F q lv=1}; c=<all|any> [o b] vr=tup", ["set p", "<set|dropp> q", "wait.C c"], "geta c [x y]; get x; get y"),
    ("p=mkp; o=co.F {aw.F p lv=1}; t=task r=fut ro=o; getfk t f", ["call t", "set p", "get f"], ""),
    ("p=mkp; o=co.F {aw.F p lv=1; q=mkp; set q; c=then q}", ["set p", "get o"], "get c"),
    ("p=mkp; o=co.F {aw.F p lv=1}; shr o s; c=then.S s", ["<set|sete> p", "get.S s", "get c"], "get.S s"),
    ("p=mkp; q=mkp; shr q z; o=co.F {aw.F p lv=1; aw.S z lv=1; aw.S z lv=1}", ["set p", "set q", "get o"], ""),
    ("t=task; getfk t f; o=co.F {aw.F f lv=1}", ["<call|dropk> t", "get o"], ""),
    ("p=mkp; mv p f; o=co.F {aw.F p lv=1}", ["set p"], "get o; get f"),
]


def expand(s):
    """every choice of the <a|b> alternatives"""
    parts = re.split(r"<([^<>]*)>", s)
    alts = [[x] if i % 2 == 0 else x.split("|") for i, x in enumerate(parts)]
    return alts


def variants(e):
    pre, threads, post = e[:3]
    opt = dict(e[3]) if len(e) > 3 else {}
    if opt.get("skip"):
        return
    if opt.get("pre2"):
        pre = opt["pre2"] + "; " + pre
    SEP = "\x00"
    whole = SEP.join([pre] + list(threads) + [post])
    alts = expand(whole)
    seen = set()
    for ch in itertools.product(*alts):
        if opt.get("pair"):
            # all F/S alternatives have to agree
            fs = {c for a, c in zip(alts, ch) if a == ["F", "S"]}
            if len(fs) > 1:
                continue
        w = "".join(ch)
        if w in seen:
            continue
        seen.add(w)
        f = w.split(SEP)
        yield f[0], f[1:-1], f[-1]


def fits(kind, text):
    if "thr=1" in text and kind not in ("val", "mov"):
        return False
    return True


USES = "get|wait|isr|valid|drop|then|next|ithen|note|tw|waitfor|aw"


def shared(pre, threads, post):
    """The same program with a shared_future in place of one of its unique futures, if that is possible."""
    for m in re.finditer(r"\b(\w+)=mkp( vr=(?:canc|alloc))?(?=;|$)", pre):
        n = m.group(1)
        use = re.compile(r"\b(%s) %s\b" % (USES, n))
        rest = [re.sub(r"\b(set|sete|dropp|awaiten) %s\b" % n, "", use.sub("", t)) for t in [pre, post] + list(threads)]
        rest[0] = rest[0].replace(m.group(0), "", 1)
        if any(re.search(r"\b%s\b" % n, t) for t in rest) or "keep=" in " ".join([pre, post] + list(threads)):
            continue
        if sum(1 for t in threads if use.search(t)) > 1 and re.search(r"\bdrop %s\b" % n, " ".join(threads)):
            continue
        sub = lambda t: use.sub(r"\1.S %s_s" % n, t)
        if not use.search(" ".join([pre, post] + list(threads))):
            continue
        return (sub(pre).replace(m.group(0), m.group(0) + "; shr %s %s_s" % (n, n), 1), [sub(t) for t in threads], sub(post))
    return None


def directed(prop, thorough, clean=("pf", "fp", "qf")):
    out = []
    n = 0
    for e in P[prop]:
        vs = list(variants(e))
        vs += [x for x in (shared(*v) for v in (vs if thorough else vs[:2])) if x]
        for pre, threads, post in vs:
            n += 1
            text = " | ".join([pre] + threads + [post])
            ks = KINDS if thorough else [KINDS[n % 4]]
            for j, k in enumerate(ks):
                if not fits(k, text):
                    if thorough:
                        continue
                    k = "val"
                for cl in (clean if thorough and len(threads) < 3 else [clean[(n + j) % 3]]):
                    out.append(futlang.build(k, pre, threads, post, clean=cl, text=text))
    return out
