------------------------------ MODULE PcFuture ------------------------------
(* Specification of promises, futures, continuations, tasks, combinators,    *)
(* timed waiters and coroutines of portable_concurrency as their users see   *)
(* them.  A program (the same table the harness executes on the real code)   *)
(* gives the meaning of operation ids; visible steps are calls and returns   *)
(* of operations, posts to executors, starts and ends of user functions,     *)
(* destructions of function objects and cancel actions.  The few internal    *)
(* steps are the moments an operation takes effect.                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Progs == ndJsonDeserialize(IOEnv.PROGS)
Threads == 0..6
VARIABLES pi,    \* index of the program
          s      \* state
fvars == <<pi, s>>
Op(i) == Progs[pi].ops[i]
Ids == 1..Progs[pi].nn          \* nodes and handle slots (creating operations come first)

-----------------------------------------------------------------------------
(* A node is a shared state (result), a notification or a timed waiter:      *)
(*  k     kind: prom cnt task all any note tw co                             *)
(*  st    no, pend, ready, dead (nobody can refer to it any more)            *)
(*  res e result code, whether it is an error                                *)
(*  fn    function object: none idle run fin (ran, not destroyed) gone       *)
(*  par   source of a continuation          lnk  unwrapped inner node        *)
(*  obl   set of [m, j]: attached and not yet delivered                      *)
(*  held  inputs of a combinator            left inputs to go / ix winner    *)
(*  set   (tw) notification delivered       ad   identity of the shared value*)
NoNode == [k |-> "none", st |-> "no", res |-> "", e |-> FALSE, fn |-> "none", par |-> 0, lnk |-> 0,
           obl |-> {}, det |-> FALSE, canc |-> "no", held |-> <<>>, left |-> 0, ix |-> -1,
           set |-> FALSE, ad |-> 0]
NoH == [n |-> 0, w |-> FALSE]              \* producer handle: node, weak (future was retrieved)
InitState ==
  [n |-> [i \in Ids |-> NoNode],
   F |-> [i \in Ids |-> 0], S |-> [i \in Ids |-> 0],
   P |-> [i \in Ids |-> NoH], K |-> [i \in Ids |-> NoH], W |-> [i \in Ids |-> 0],
   q |-> [x \in {"q1", "q2"} |-> <<>>],
   fr |-> [t \in Threads |-> <<>>]]

Frame(f, i, n) == [f |-> f, i |-> i, n |-> n, ph |-> "called", r |-> "", z |-> FALSE, h |-> {}, todo |-> {}]
Top(v, t) == v.fr[t][Len(v.fr[t])]
HasTop(v, t) == v.fr[t] # <<>>
Push(v, t, f) == [v EXCEPT !.fr[t] = Append(@, f)]
Pop(v, t) == [v EXCEPT !.fr[t] = SubSeq(@, 1, Len(@) - 1)]
SetTop(v, t, f) == [v EXCEPT !.fr[t][Len(v.fr[t])] = f]
TopPh(v, t, p) == [v EXCEPT !.fr[t][Len(v.fr[t])].ph = p]
IsOp(v, t) == HasTop(v, t) /\ Top(v, t).f = "op"

Range(q) == {q[j] : j \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Reachability: a node that is reachable must be kept alive.                *)
IsComb(v, m) == v.n[m].k \in {"all", "any"}
Owned(v, m) == v.n[m].k \in {"all", "any", "note"}      \* an attachment owns these
Edges(v, m) ==
  LET x == v.n[m] IN
  (IF x.k = "cnt" /\ x.fn = "idle" THEN {x.par} ELSE {})
  \cup (IF x.lnk # 0 THEN {x.lnk} ELSE {})
  \cup Range(x.held)
  \cup {o[1] : o \in {oo \in x.obl : Owned(v, oo[1])}}
RECURSIVE Reach(_, _)
Reach(v, R) == LET N == R \cup UNION {Edges(v, m) : m \in R} IN IF N = R THEN R ELSE Reach(v, N)
FrameRoots(v, f) ==
  (IF f.f = "op" /\ Op(f.i).o \in {"get", "aw"} THEN {x \in f.h : v.n[x].st = "pend"} ELSE f.h)
  \cup (CASE f.f = "pub" -> {o[1] : o \in {oo \in f.todo : Owned(v, oo[1])}}
              [] f.f = "run" -> IF Op(f.n).o \in {"ithen", "co"} THEN {} ELSE {f.n}
              [] f.f = "exec" -> IF v.n[f.n].k = "note" THEN {f.n} ELSE {}
              [] OTHER -> {})
Roots(v) ==
  (Range(v.F) \cup Range(v.S)
   \cup {v.P[i].n : i \in {j \in Ids : ~v.P[j].w}} \cup {v.K[i].n : i \in {j \in Ids : ~v.K[j].w}}
   \cup UNION {UNION {FrameRoots(v, v.fr[t][j]) : j \in 1..Len(v.fr[t])} : t \in Threads}
   \cup {m \in Range(v.q["q1"]) \cup Range(v.q["q2"]) : v.n[m].k = "note"}
   \cup {m \in Ids : v.n[m].st = "pend" /\ v.n[m].det}
   \* a combinator and its pending inputs keep each other alive
   \cup {m \in Ids : IsComb(v, m) /\ \E x \in Range(v.n[m].held) :
                       v.n[x].st = "pend" /\ \E o \in v.n[x].obl : o[1] = m}
   \* a suspended coroutine holds what it awaits
   \cup {m \in Ids : v.n[m].st = "pend" /\ \E o \in v.n[m].obl : v.n[o[1]].k = "co"}) \ {0}
Alive(v) == Reach(v, Roots(v))
\* what may still be alive while operations are in progress
Kept(v) == Reach(v, Roots(v) \cup (UNION {UNION {v.fr[t][j].h : j \in 1..Len(v.fr[t])} : t \in Threads} \ {0}))
\* m may be (considered) dead
MayDie(v, m) == v.n[m].st = "dead" \/ m \notin Alive(v)
\* (a notification dies with the future it is attached to)
Kill(v, m) ==
  LET D == {m} \cup (IF v.n[m].k = "note" THEN {x \in Ids : \E o \in v.n[x].obl : o[1] = m} ELSE {})
  IN [v EXCEPT !.n = [x \in Ids |-> IF x \in D THEN [v.n[x] EXCEPT !.st = "dead", !.obl = {}] ELSE v.n[x]]]

-----------------------------------------------------------------------------
(* Publishing a result: the attachments are delivered by this thread         *)
Publish(v, t, m, res, e) ==
  LET o == v.n[m].obl
      v1 == [v EXCEPT !.n[m].st = "ready", !.n[m].res = res, !.n[m].e = e, !.n[m].obl = {}]
  IN Push(v1, t, [Frame("pub", 0, m) EXCEPT !.todo = o])
\* attach [m, j] to node x: stored, or delivered at once
Attach(v, t, x, m, j) ==
  IF v.n[x].st = "pend" THEN [v EXCEPT !.n[x].obl = @ \cup {<<m, j>>}]
  ELSE Push(v, t, [Frame("pub", 0, x) EXCEPT !.todo = {<<m, j>>}])
H(v, ak, a) == IF ak = "S" THEN v.S[a] ELSE v.F[a]
SetH(v, ak, b, x) == IF ak = "S" THEN [v EXCEPT !.S[b] = x] ELSE [v EXCEPT !.F[b] = x]
Result(v, m) == v.n[m].res
\* kind of the future a function outcome produces
OutKind(r) == IF r \in {"sfut", "sinv"} THEN "S" ELSE "F"

-----------------------------------------------------------------------------
(* Visible: start of operation i                                             *)
Done(f, r) == [f EXCEPT !.ph = "done", !.r = r]
MakeNode(v, i, rec) == [v EXCEPT !.n[i] = rec]
Abandon(v, t, f, h) ==       \* the producer handle h has been taken out of its slot
  IF h.n = 0 THEN Push(v, t, Done(f, "ok"))
  ELSE Push(v, t, [f EXCEPT !.n = h.n, !.ph = "aband", !.r = "ok"])
CallS(v, t, i) ==
  LET op == Op(i)
      f0 == Frame("op", i, 0)
      src == H(v, op.ak, op.a)
  IN CASE op.o = "mkp" ->
            LET leg == op.vr \in {"leg", "legc", "lega"}
                v1 == MakeNode(v, i, [NoNode EXCEPT !.k = "prom", !.st = "pend",
                                        !.canc = IF op.vr \in {"canc", "legc"} THEN "armed" ELSE "no"])
                v2 == [v1 EXCEPT !.P[i] = [n |-> i, w |-> ~leg], !.F[i] = IF leg THEN 0 ELSE i]
            IN Push(v2, t, Done(f0, "ok"))
       [] op.o = "getf" ->
            LET h == v.P[op.a] IN
            IF h.n = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE IF h.w THEN Push(v, t, Done(f0, "retrieved"))
            ELSE Push([v EXCEPT !.P[op.a].w = TRUE, !.F[op.b] = h.n], t, Done(f0, "ok"))
       [] op.o = "mkr" ->
            Push([MakeNode(v, i, [NoNode EXCEPT !.k = "prom", !.st = "ready", !.e = (op.r = "e"),
                                    !.res = IF op.r = "e" THEN op.ec ELSE op.vc]) EXCEPT !.F[i] = i], t, Done(f0, "ok"))
       [] op.o \in {"set", "sete"} ->
            IF v.P[op.a].n = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(v, t, [f0 EXCEPT !.n = v.P[op.a].n, !.z = v.n[v.P[op.a].n].st # "dead"])
       [] op.o = "dropp" -> Abandon([v EXCEPT !.P[op.a] = NoH], t, f0, [v.P[op.a] EXCEPT !.n = IF v.P[op.a].w THEN @ ELSE 0])
       [] op.o = "movep" ->
            Abandon([v EXCEPT !.P[op.b] = v.P[op.a], !.P[op.a] = NoH], t, f0,
                    [v.P[op.b] EXCEPT !.n = IF v.P[op.b].w THEN @ ELSE 0])
       [] op.o = "awaiten" ->
            IF v.P[op.a].n = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(v, t, [f0 EXCEPT !.n = v.P[op.a].n, !.z = v.n[v.P[op.a].n].st # "dead"])
       [] op.o \in {"get", "wait", "geta"} ->
            IF src = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(IF op.o = "wait" \/ op.ak = "S" THEN v ELSE [v EXCEPT !.F[op.a] = 0],
                      t, [f0 EXCEPT !.n = src, !.h = {src}])
       [] op.o = "isr" ->
            IF src = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(v, t, [f0 EXCEPT !.n = src, !.z = v.n[src].st = "ready"])
       [] op.o = "valid" -> Push(v, t, Done(f0, IF src = 0 THEN "false" ELSE "true"))
       [] op.o = "drop" -> Push(SetH(v, op.ak, op.a, 0), t, Done(f0, "ok"))
       [] op.o = "shr" -> Push([v EXCEPT !.S[op.b] = v.F[op.a], !.F[op.a] = 0], t, Done(f0, "ok"))
       [] op.o = "copy" -> Push([v EXCEPT !.S[op.b] = v.S[op.a]], t, Done(f0, "ok"))
       [] op.o = "mv" -> Push(SetH(SetH(v, op.ak, op.a, 0), op.ak, op.b, src), t, Done(f0, "ok"))
       [] op.o = "det" ->
            IF src = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push([SetH(SetH(v, op.ak, op.a, 0), op.ak, op.b, src) EXCEPT !.n[src].det = TRUE], t, Done(f0, "ok"))
       [] op.o \in {"then", "next", "ithen", "thena"} ->
            IF src = 0
            THEN Push(IF op.lv = 1 \/ op.o = "thena" THEN v ELSE [v EXCEPT !.n[i].fn = "fin"], t, Done(f0, "nostate"))
            ELSE LET v1 == IF op.ak = "S" THEN v ELSE [v EXCEPT !.F[op.a] = 0]
                 IN Push(MakeNode(v1, i, [NoNode EXCEPT !.k = "cnt", !.st = "pend", !.fn = "idle", !.par = src]),
                         t, [f0 EXCEPT !.n = src, !.h = {i}, !.r = "ok"])
       [] op.o = "note" ->
            IF src = 0 THEN Push(IF op.lv = 1 THEN v ELSE [v EXCEPT !.n[i].fn = "fin"], t, Done(f0, "nostate"))
            ELSE Push(MakeNode(v, i, [NoNode EXCEPT !.k = "note", !.st = "pend", !.fn = "idle"]),
                      t, [f0 EXCEPT !.n = src, !.h = {i}, !.r = "ok"])
       [] op.o = "task" ->
            Push([MakeNode(v, i, [NoNode EXCEPT !.k = "task", !.st = "pend", !.fn = "idle"])
                    EXCEPT !.K[i] = [n |-> i, w |-> FALSE]], t, Done(f0, "ok"))
       [] op.o = "getfk" ->
            LET h == v.K[op.a] IN
            IF h.n = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE IF h.w THEN Push(v, t, Done(f0, "retrieved"))
            ELSE Push(SetH([v EXCEPT !.K[op.a].w = TRUE], op.ak, op.b, h.n), t, Done(f0, "ok"))
       [] op.o = "call" ->
            IF v.K[op.a].n = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(v, t, [f0 EXCEPT !.n = v.K[op.a].n])
       [] op.o = "dropk" -> Abandon([v EXCEPT !.K[op.a] = NoH], t, f0, v.K[op.a])
       [] op.o = "mvk" -> Abandon([v EXCEPT !.K[op.b] = v.K[op.a], !.K[op.a] = NoH], t, f0, v.K[op.b])
       [] op.o = "swapk" -> Push([v EXCEPT !.K[op.a] = v.K[op.b], !.K[op.b] = v.K[op.a]], t, Done(f0, "ok"))
       [] op.o = "validk" -> Push(v, t, Done(f0, IF v.K[op.a].n = 0 THEN "false" ELSE "true"))
       [] op.o = "async" ->
            Push(MakeNode(v, i, [NoNode EXCEPT !.k = "task", !.st = "pend", !.fn = "idle"]),
                 t, [f0 EXCEPT !.n = i, !.h = {i}, !.r = "ok"])
       [] op.o \in {"all", "any"} ->
            LET ins == [j \in 1..Len(op.as) |-> H(v, op.ks[j], op.as[j])]
                v1 == [v EXCEPT !.F = [x \in Ids |-> IF \E j \in 1..Len(op.as) : op.as[j] = x /\ op.ks[j] = "F"
                                                     THEN 0 ELSE v.F[x]]]
            IN Push(MakeNode(v1, i, [NoNode EXCEPT !.k = op.o, !.st = "pend", !.held = ins, !.left = Len(ins) + 1]),
                    t, [f0 EXCEPT !.n = 1, !.h = {i}, !.r = "ok"])
       [] op.o = "tw" ->
            IF src = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push([MakeNode(v, i, [NoNode EXCEPT !.k = "tw", !.st = "pend", !.par = src]) EXCEPT !.W[i] = i],
                      t, [f0 EXCEPT !.n = src, !.r = "ok"])
       [] op.o = "waitfor" ->
            IF src = 0 THEN Push(v, t, Done(f0, "nostate"))
            ELSE Push(MakeNode(v, i, [NoNode EXCEPT !.k = "tw", !.st = "pend", !.par = src, !.set = v.n[src].st = "ready"]),
                      t, [f0 EXCEPT !.n = i, !.z = v.n[src].st = "ready"])
       [] op.o = "twait" -> Push(v, t, [f0 EXCEPT !.n = v.W[op.a], !.z = v.n[v.W[op.a]].set])
       [] op.o = "cpw" -> Push([v EXCEPT !.W[op.b] = v.W[op.a]], t, Done(f0, "ok"))
       [] op.o = "dropw" -> Push([v EXCEPT !.W[op.a] = 0], t, Done(f0, "ok"))
       [] op.o \in {"xrun", "xrunb", "xdrop", "xclr"} -> Push(v, t, f0)
       [] op.o = "co" ->
            Push(MakeNode(v, i, [NoNode EXCEPT !.k = "co", !.st = "pend", !.fn = "idle"]),
                 t, [f0 EXCEPT !.n = i, !.h = {i}, !.r = "ok"])
       [] op.o = "aw" -> IF src = 0 THEN Push(v, t, Done(f0, "nostate")) ELSE Push(IF op.ak = "S" THEN v ELSE [v EXCEPT !.F[op.a] = 0], t, [f0 EXCEPT !.n = src, !.h = {src}])

-----------------------------------------------------------------------------
(* Internal steps of thread t                                                *)
\* a promise or task handle sets its result / abandons it
SetDo(v, t) ==
  IF ~IsOp(v, t) THEN {}
  ELSE LET f == Top(v, t) op == Op(f.i) m == f.n IN
    (IF f.ph = "called" /\ op.o \in {"set", "sete"} /\ v.n[m].st = "pend" /\ op.thr = 0
     THEN {Publish(TopPh([v EXCEPT !.fr[t][Len(v.fr[t])].r = "ok"], t, "done"), t, m,
                   IF op.o = "set" THEN op.vc ELSE op.ec, op.o = "sete")} ELSE {})
\* a handle, a dropped queue entry or a refusing executor gives up the node f.n
AbandDo(v, t) ==
  IF ~HasTop(v, t) \/ Top(v, t).ph # "aband" THEN {}
  ELSE LET f == Top(v, t)
           m == f.n
           v0 == IF f.f = "op" THEN TopPh(v, t, "done") ELSE Pop(v, t)
       IN (IF MayDie(v, m) /\ v.n[m].k # "note" THEN {Kill(v0, m)} ELSE {})
          \cup
          (IF v.n[m].st = "dead" THEN {}
           ELSE LET v1 == IF v.n[m].fn = "idle" THEN [v0 EXCEPT !.n[m].fn = "fin"] ELSE v0 IN
                IF v.n[m].k # "note" /\ v.n[m].st = "pend" /\ v.n[m].lnk = 0 THEN {Publish(v1, t, m, "broken", TRUE)}
                ELSE {v1})
\* then/next/notify/timed waiter/combinator inputs are attached
AttachDo(v, t) ==
  IF ~IsOp(v, t) \/ Top(v, t).ph # "called" THEN {}
  ELSE LET f == Top(v, t) op == Op(f.i) IN
    CASE op.o \in {"then", "next", "ithen", "thena", "note"} ->
           {Attach(TopPh(v, t, "done"), t, f.n, f.i, 0)}
      [] op.o = "tw" ->
           {IF v.n[f.n].st = "pend" THEN [TopPh(v, t, "done") EXCEPT !.n[f.n].obl = @ \cup {<<f.i, 0>>}]
            ELSE [TopPh(v, t, "done") EXCEPT !.n[f.i].set = TRUE]}
      [] op.o = "waitfor" /\ ~v.n[f.i].set /\ \A o \in v.n[v.n[f.i].par].obl : o[1] # f.i ->
           {IF v.n[v.n[f.i].par].st = "pend" THEN [v EXCEPT !.n[v.n[f.i].par].obl = @ \cup {<<f.i, 0>>}]
            ELSE [v EXCEPT !.n[f.i].set = TRUE]}
      [] op.o \in {"all", "any"} ->
           LET c == f.i j == f.n nx == [v EXCEPT !.fr[t][Len(v.fr[t])].n = j + 1] IN
           IF j <= Len(v.n[c].held) THEN {Attach(nx, t, v.n[c].held[j], c, j)}
           ELSE IF op.o = "all"
                THEN LET v1 == [TopPh(v, t, "done") EXCEPT !.n[c].left = @ - 1] IN
                     {IF v1.n[c].left = 0 THEN Publish(v1, t, c, "all", FALSE) ELSE v1}
                ELSE {IF v.n[c].held = <<>> THEN Publish(TopPh(v, t, "done"), t, c, "x", FALSE) ELSE TopPh(v, t, "done")}
      [] OTHER -> {}
\* delivery of attachments which are not user functions
IsLink(v, m) == v.n[m].k \in {"cnt", "task"} /\ v.n[m].fn \in {"fin", "gone"}
\* a continuation that is not run because its source holds an error
Skips(v, m) == v.n[m].k = "cnt" /\ Op(m).o = "next" /\ v.n[m].fn = "idle" /\ v.n[v.n[m].par].st = "ready" /\ v.n[v.n[m].par].e
SkipNext(v, t, m) ==
  Publish([v EXCEPT !.n[m].fn = "fin"], t, m, v.n[v.n[m].par].res, TRUE)
DeliverDo(v, t) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "pub" THEN {}
  ELSE LET f == Top(v, t) IN
    UNION {LET m == o[1]
               v1 == [v EXCEPT !.fr[t][Len(v.fr[t])].todo = @ \ {o}]
           IN CASE v.n[m].k = "all" ->
                     {LET v2 == [v1 EXCEPT !.n[m].left = @ - 1] IN
                      IF v2.n[m].left = 0 THEN Publish(v2, t, m, "all", FALSE) ELSE v2}
                [] v.n[m].k = "any" ->
                     \* the first input to become ready is chosen, then published: another one may finish in between
                     {IF o[2] = 0 THEN Publish(v1, t, m, "x", FALSE)
                      ELSE IF v.n[m].ix = -1
                      THEN [v1 EXCEPT !.n[m].ix = o[2] - 1, !.fr[t][Len(v.fr[t])].todo = @ \cup {<<m, 0>>}] ELSE v1}
                [] IsLink(v, m) /\ v.n[m].st = "pend" -> {Publish(v1, t, m, v.n[f.n].res, v.n[f.n].e)}
                [] Skips(v, m) /\ Op(m).x = "in" /\ v.n[m].st = "pend" -> {SkipNext(v1, t, m)}
                [] OTHER -> {}
           : o \in f.todo}
\* everything has been delivered (what is left belongs to nodes nobody awaits any more)
PubEnd(v, t) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "pub" THEN {}
  ELSE LET f == Top(v, t)
           tws == {o \in f.todo : v.n[o[1]].k = "tw"}
           rest == {o[1] : o \in f.todo \ tws}
       IN IF \A m \in rest : v.n[m].k \in {"cnt", "task"} /\ MayDie(v, m)
          THEN {LET v1 == Pop(v, t) IN
                [v1 EXCEPT !.n = [m \in Ids |-> IF m \in rest THEN [v1.n[m] EXCEPT !.st = "dead", !.obl = {}]
                                                ELSE IF <<m, 0>> \in tws THEN [v1.n[m] EXCEPT !.set = TRUE]
                                                ELSE v1.n[m]]]}
          ELSE {}
\* a posted task is invoked but there is nothing to run
ExecDo(v, t) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "exec" THEN {}
  ELSE LET f == Top(v, t) m == f.n IN
    IF f.ph = "done" THEN {Pop(v, t)}
    ELSE (IF f.ph = "called" /\ v.n[m].k # "note" /\ MayDie(v, m) THEN {Kill(Pop(v, t), m)} ELSE {})
         \cup (IF f.ph = "called" /\ Skips(v, m) /\ v.n[m].st = "pend" THEN {SkipNext(TopPh(v, t, "done"), t, m)} ELSE {})
\* a user function has returned: its outcome becomes the result
FinDo(v, t) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "run" THEN {}
  ELSE LET f == Top(v, t) m == f.n op == Op(m) v0 == Pop(v, t) IN
    IF f.ph = "end"
    THEN CASE v.n[m].k = "note" \/ op.o = "ithen" -> {v0}
           [] v.n[m].k = "co" /\ v.n[m].st = "dead" -> {v0}
           \* the result could not be stored: the caller of the task is told, the result stays open
           [] op.r = "v" /\ op.thr = 1 -> {[v0 EXCEPT !.fr[t][Len(v0.fr[t])].r = "thrown"]}
           [] op.r \in {"v"} -> {Publish(v0, t, m, op.vc, FALSE)}
           [] op.r \in {"e", "fe"} -> {Publish(v0, t, m, op.ec, TRUE)}
           [] op.r \in {"inv", "sinv"} -> {Publish(v0, t, m, "broken", TRUE)}
           [] op.r \in {"fut", "sfut"} ->
                LET x == CHOOSE y \in {0} \cup f.h : y # 0 \/ f.h = {} IN
                IF x = 0 THEN {Publish(v0, t, m, "broken", TRUE)}
                ELSE LET v1 == [v0 EXCEPT !.n[m].lnk = x] IN
                     IF v.n[x].st = "pend" THEN {[v1 EXCEPT !.n[x].obl = @ \cup {<<m, 0>>}]}
                     ELSE {Publish(v1, t, m, v.n[x].res, v.n[x].e)}
    ELSE {}
\* a queue is found empty
QOf(x) == IF x = "qa" THEN {"q1", "q2"} ELSE {x}
EmptyDo(v, t) ==
  IF IsOp(v, t) /\ Top(v, t).ph = "called" /\ Op(Top(v, t).i).o \in {"xrun", "xdrop", "xclr"} /\ \A q \in QOf(Op(Top(v, t).i).x) : v.q[q] = <<>>
  THEN {TopPh(v, t, "empty")} ELSE {}
\* a coroutine suspends
SuspDo(v, t) ==
  IF ~IsOp(v, t) \/ Op(Top(v, t).i).o # "aw" \/ Top(v, t).ph # "called" THEN {}
  ELSE LET f == Top(v, t) m == v.fr[t][Len(v.fr[t]) - 1].n
           v1 == [Pop(Pop(v, t), t) EXCEPT !.n[m].par = f.i]
       IN {Attach(v1, t, f.n, m, 0)}
Internal(v, t) == SetDo(v, t) \cup AbandDo(v, t) \cup AttachDo(v, t) \cup DeliverDo(v, t) \cup PubEnd(v, t)
                  \cup ExecDo(v, t) \cup FinDo(v, t) \cup SuspDo(v, t) \cup EmptyDo(v, t)

-----------------------------------------------------------------------------
(* Visible: user functions                                                   *)
\* where thread t stands, may function m start?  (set of states with the start taken out of todo)
StartPoints(v, t, m) ==
  IF ~HasTop(v, t) THEN {}
  ELSE LET f == Top(v, t) IN
    (IF f.f = "pub" /\ <<m, 0>> \in f.todo /\ v.n[m].k \in {"cnt", "note"} /\ Op(m).x = "in"
     THEN {[v EXCEPT !.fr[t][Len(v.fr[t])].todo = @ \ {<<m, 0>>}]} ELSE {})
    \cup (IF f.f = "exec" /\ f.n = m /\ f.ph = "called" THEN {TopPh(v, t, "done")} ELSE {})
    \cup (IF f.f = "op" /\ f.ph = "called" /\ Op(f.i).o = "call" /\ f.n = m
          THEN {[TopPh(v, t, "done") EXCEPT !.fr[t][Len(v.fr[t])].r = "ok"]} ELSE {})
    \cup (IF f.f = "op" /\ f.ph = "called" /\ f.i = m /\ (Op(m).o = "co" \/ (Op(m).o = "async" /\ Op(m).x = "in"))
          THEN {TopPh(v, t, "done")} ELSE {})
RunArg(v, t, m) ==       \* what the function is given (functions taking a future report it separately)
  CASE v.n[m].k = "cnt" /\ Op(m).o = "next" -> IF Progs[pi].kind = "void" THEN "-" ELSE v.n[v.n[m].par].res
    [] v.n[m].k = "task" /\ Op(m).o = "async" -> Op(m).ac
    [] v.n[m].k = "task" -> Op(Top(v, t).i).ac
    [] OTHER -> "-"
RunS(v, t, m, a, y) ==
  IF v.n[m].fn # "idle" \/ v.n[m].st # "pend" \/ y # "y" \/ Skips(v, m) THEN {}
  ELSE IF v.n[m].k = "cnt" /\ v.n[v.n[m].par].st # "ready" THEN {}
  ELSE {LET x == v.n[m]
            fut == x.k = "cnt" /\ Op(m).o # "next"
            v2 == [v1 EXCEPT !.n[m].fn = "run",
                             !.P[m] = IF x.k = "cnt" /\ Op(m).o = "ithen" THEN [n |-> m, w |-> TRUE] ELSE @]
        IN Push(v2, t, [Frame("run", m, m) EXCEPT !.h = IF x.k = "cnt" /\ (Op(m).keep = 1 \/ Op(m).o = "thena") THEN {x.par} ELSE {},
                                                  !.ph = IF fut THEN "arg" ELSE "body"])
        : v1 \in {w \in StartPoints(v, t, m) : a = RunArg(v, t, m)}}
\* the future passed to the function has been read (or kept, or its futures taken)
TakeComb(v, c, op) ==
  LET F1 == [x \in Ids |-> IF \E j \in 1..Len(op.bs) : op.bs[j] = x /\ op.ks[j] = "F"
                           THEN v.n[c].held[CHOOSE j \in 1..Len(op.bs) : op.bs[j] = x /\ op.ks[j] = "F"] ELSE v.F[x]]
      S1 == [x \in Ids |-> IF \E j \in 1..Len(op.bs) : op.bs[j] = x /\ op.ks[j] = "S"
                           THEN v.n[c].held[CHOOSE j \in 1..Len(op.bs) : op.bs[j] = x /\ op.ks[j] = "S"] ELSE v.S[x]]
  IN [v EXCEPT !.F = F1, !.S = S1, !.n[c].held = <<>>]
CombCode(v, c) == IF v.n[c].k = "all" THEN "all" ELSE "x" \o ToString(v.n[c].ix)
ArgS(v, t, m, a) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "run" \/ Top(v, t).n # m \/ Top(v, t).ph # "arg" THEN {}
  ELSE LET p == v.n[m].par op == Op(m)
           v1 == [TopPh(v, t, "body") EXCEPT !.fr[t][Len(v.fr[t])].h = {}]
       IN IF op.o = "thena" THEN (IF a = CombCode(v, p) THEN {TakeComb(v1, p, op)} ELSE {})
          ELSE IF op.keep = 1 THEN (IF a = "kept" THEN {SetH(v1, op.ak, op.b, p)} ELSE {})
          ELSE IF a = v.n[p].res THEN {v1} ELSE {}
FinS(v, t, m) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "run" \/ Top(v, t).n # m \/ Top(v, t).ph # "body" THEN {}
  ELSE LET op == Op(m)
           v1 == [TopPh(v, t, "end") EXCEPT !.n[m].fn = "fin"]
           k == IF op.r = "sfut" THEN "S" ELSE "F"
           x == H(v, k, op.ro)
       IN IF v.n[m].k # "note" /\ op.o # "ithen" /\ op.r \in {"fut", "sfut"}
          THEN {[(IF op.r = "sfut" /\ op.lv = 1 THEN v1 ELSE SetH(v1, k, op.ro, 0))
                   EXCEPT !.fr[t][Len(v.fr[t])].h = IF x = 0 THEN {} ELSE {x}]}
          ELSE {v1}
\* a function object is destroyed
DtorS(v, m) ==
  CASE v.n[m].fn = "fin" -> {[v EXCEPT !.n[m].fn = "gone"]}
    [] v.n[m].fn = "idle" /\ MayDie(v, m) -> {[Kill(v, m) EXCEPT !.n[m].fn = "gone"]}
    \* a dropped task destroys its function before it gives up the result
    [] v.n[m].fn = "idle" /\ \E t \in Threads : HasTop(v, t) /\ Top(v, t).ph = "aband" /\ Top(v, t).n = m ->
         {[v EXCEPT !.n[m].fn = "gone"]}
    [] OTHER -> {}
CancelS(v, m) ==
  IF v.n[m].canc = "armed" /\ v.n[m].st \in {"pend", "dead"} /\ v.n[m].res = "" /\ MayDie(v, m)
  THEN {[Kill(v, m) EXCEPT !.n[m].canc = "called"]} ELSE {}
\* a task is handed to executor q
PostS(v, t, q, m) ==
  IF ~HasTop(v, t) \/ q = "in" \/ Op(m).x # q THEN {}
  ELSE LET f == Top(v, t)
           pts == (IF f.f = "pub" /\ <<m, 0>> \in f.todo /\ v.n[m].k \in {"cnt", "note"}
                   THEN {[v EXCEPT !.fr[t][Len(v.fr[t])].todo = @ \ {<<m, 0>>}]} ELSE {})
                  \cup (IF f.f = "op" /\ f.i = m /\ f.ph = "called" /\ Op(m).o = "async" THEN {TopPh(v, t, "done")} ELSE {})
       IN {CASE q = "nul" -> Push(v1, t, [Frame("exec", 0, m) EXCEPT !.ph = "aband"])
             [] q = "inl" -> Push(v1, t, Frame("exec", 0, m))
             [] OTHER -> [v1 EXCEPT !.q[q] = Append(@, m)] : v1 \in pts}
\* a task is taken out of a queue to be run or dropped
PopS(v, t, q, m) ==
  IF ~IsOp(v, t) \/ q \notin QOf(Op(Top(v, t).i).x) \/ v.q[q] = <<>> \/ Head(v.q[q]) # m THEN {}
  ELSE LET o == Op(Top(v, t).i).o
           v1 == [v EXCEPT !.q[q] = Tail(@)]
       IN CASE o \in {"xrun", "xrunb"} /\ Top(v, t).ph = "called" -> {Push(TopPh(v1, t, "done"), t, Frame("exec", 0, m))}
            [] o = "xdrop" /\ Top(v, t).ph = "called" -> {Push(TopPh(v1, t, "done"), t, [Frame("exec", 0, m) EXCEPT !.ph = "aband"])}
            [] o = "xclr" /\ Top(v, t).ph = "called" -> {Push(v1, t, [Frame("exec", 0, m) EXCEPT !.ph = "aband"])}
            [] OTHER -> {}
\* a timed wait runs into its deadline: not if it has been told that the future is ready
TmoS(v, t) ==
  IF IsOp(v, t) /\ Op(Top(v, t).i).o \in {"twait", "waitfor"} /\ ~v.n[Top(v, t).n].set
  THEN {TopPh(v, t, "tmo")} ELSE {}

-----------------------------------------------------------------------------
(* Visible: end of an operation with result r                                *)
ReadOnly(v, u) ==
  \A j \in 1..Len(v.fr[u]) : v.fr[u][j].f = "op" /\ Op(v.fr[u][j].i).o \in
      {"get", "wait", "isr", "valid", "awaiten", "twait", "validk"}
\* Nothing else is going on: what nobody can reach is gone, functions that ran or cannot run any
\* more are destroyed, cancel actions have been called.
QuietOK(v) ==
  LET D == {m \in Ids : v.n[m].st \in {"pend", "ready"} /\ v.n[m].k # "tw"} \ Kept(v)
  IN /\ \A m \in D : /\ v.n[m].fn # "idle" /\ (v.n[m].fn = "run" => v.n[m].k = "co")
                     /\ ~(v.n[m].canc = "armed" /\ v.n[m].st = "pend")
     /\ \A m \in Ids : v.n[m].fn # "fin" /\ ~(v.n[m].st = "dead" /\ v.n[m].fn = "idle")
                       /\ ~(v.n[m].st = "dead" /\ v.n[m].canc = "armed" /\ v.n[m].res = "")
Quieten(v) ==
  LET A == Kept(v) IN
  [v EXCEPT !.n = [m \in Ids |-> IF v.n[m].st \in {"pend", "ready"} /\ v.n[m].k # "tw" /\ m \notin A
                                 THEN [v.n[m] EXCEPT !.st = "dead", !.obl = {}] ELSE v.n[m]]]
AfterRet(v, t) ==
  IF v.fr[t] = <<>> /\ \A u \in Threads \ {t} : ReadOnly(v, u)
  THEN (IF QuietOK(v) THEN {Quieten(v)} ELSE {})
  ELSE {v}
RetS0(v, t, r, ad) ==
  LET f == Top(v, t) op == Op(f.i) m == f.n v0 == Pop(v, t) IN
  IF f.ph = "done"
  THEN IF op.o \in {"xrun", "xrunb", "xdrop"} THEN (IF r = "ran" THEN {v0} ELSE {})
       ELSE IF r # f.r THEN {}
       ELSE IF r = "ok" /\ op.o \in {"then", "next", "ithen", "thena", "async", "all", "any", "co"}
            THEN {SetH(v0, IF op.o \in {"then", "next", "async"} THEN OutKind(op.r)
                           ELSE IF op.o = "co" THEN op.ak ELSE "F", f.i, f.i)}
            ELSE {v0}
  ELSE CASE op.o \in {"set", "sete"} ->
              (IF r = "ok" /\ MayDie(v, m) THEN {Kill(v0, m)} ELSE {})
              \cup (IF r = "satisfied" /\ v.n[m].st = "ready" THEN {v0} ELSE {})
              \* (the last future may disappear while the value is being constructed)
              \cup (IF r = "thrown" /\ op.thr = 1 /\ (v.n[m].st = "pend" \/ (v.n[m].st = "dead" /\ f.z)) THEN {v0} ELSE {})
         [] op.o = "awaiten" ->
              (IF r = "true" /\ f.z THEN {v0} ELSE {})
              \cup (IF r = "false" /\ MayDie(v, m) THEN {Kill(v0, m)} ELSE {})
         [] op.o = "get" ->
              IF v.n[m].res # "" /\ r = v.n[m].res
              THEN IF op.ak = "S"
                   THEN (IF ad = 0 \/ v.n[m].ad \in {0, ad} THEN {[v0 EXCEPT !.n[m].ad = ad]} ELSE {})
                   ELSE {v0}
              ELSE {}
         [] op.o = "wait" -> IF v.n[m].st = "ready" /\ r = "ok" THEN {v0} ELSE {}
         [] op.o = "geta" -> IF v.n[m].st = "ready" /\ r = CombCode(v, m)
                             THEN {TakeComb(v0, m, op)} ELSE {}
         [] op.o = "isr" -> (IF r = "true" /\ v.n[m].st = "ready" THEN {v0} ELSE {})
                            \cup (IF r = "false" /\ ~f.z THEN {v0} ELSE {})
         [] op.o = "call" ->
              (IF r = "ok" /\ MayDie(v, m) THEN {Kill(v0, m)} ELSE {})
              \cup (IF r = "satisfied" /\ v.n[m].st # "dead" /\ v.n[m].fn # "idle" THEN {v0} ELSE {})
         [] op.o \in {"twait", "waitfor"} ->
              (IF r = "ready" /\ v.n[v.n[m].par].res # "" THEN {v0} ELSE {})
              \cup (IF r = "timeout" /\ f.ph = "tmo" /\ ~f.z THEN {v0} ELSE {})
         [] op.o \in {"xrun", "xdrop"} -> IF f.ph = "empty" /\ r = "none" THEN {v0} ELSE {}
         [] op.o = "xclr" -> IF f.ph = "empty" /\ r = "ok" THEN {v0} ELSE {}
         [] op.o = "aw" -> IF v.n[m].res # "" /\ r = v.n[m].res THEN {v0} ELSE {}
         [] OTHER -> {}
\* a suspended coroutine continues: the await operation ends in thread t
ResumeS(v, t, r) ==
  IF ~HasTop(v, t) \/ Top(v, t).f # "pub" THEN {}
  ELSE UNION {LET c == o[1] IN
              IF v.n[c].k # "co" THEN {}
              ELSE LET x == Top(v, t).n
                       v1 == [v EXCEPT !.fr[t][Len(v.fr[t])].todo = @ \ {o}]
                   IN IF r = v.n[x].res THEN {Push(v1, t, [Frame("run", c, c) EXCEPT !.ph = "body"])} ELSE {}
              : o \in Top(v, t).todo}
RetS(v, t, r, ad) ==
  (IF IsOp(v, t) THEN UNION {AfterRet(w, t) : w \in RetS0(v, t, r, ad)} ELSE {})
  \cup ResumeS(v, t, r)

\* all threads are blocked: legal only if everybody waits for something that has not happened
StuckOK(v) ==
  /\ \E t \in Threads : HasTop(v, t)
  /\ \A t \in Threads : HasTop(v, t) =>
       /\ IsOp(v, t)
       /\ LET f == Top(v, t) IN
          \/ Op(f.i).o \in {"get", "wait", "geta"} /\ f.ph = "called" /\ v.n[f.n].st = "pend"
          \/ Op(f.i).o = "xrunb" /\ f.ph = "called" /\ v.q[Op(f.i).x] = <<>>
EndOK(v) ==
  /\ \A t \in Threads : v.fr[t] = <<>>
  /\ \A m \in Ids : /\ v.n[m].st \in {"no", "dead"} \/ v.n[m].k = "tw"
                    /\ v.n[m].fn \in {"none", "gone"}

-----------------------------------------------------------------------------
(* Properties of the specification                                           *)
\* C01, C05, C06: a result is set once and never changes; a linked result equals its source
FixedResults == [][\A m \in DOMAIN s.n : s.n[m].res # "" => s'.n[m].res = s.n[m].res /\ s'.n[m].e = s.n[m].e]_s
Linked == \A m \in Ids : s.n[m].lnk # 0 /\ s.n[m].res # "" => s.n[m].res = s.n[s.n[m].lnk].res
\* C02: ready is final (until nobody can look any more)
ReadyFinal == [][\A m \in DOMAIN s.n : s.n[m].st = "ready" => s'.n[m].st \in {"ready", "dead"}]_s
\* C04: functions go idle -> run -> fin -> gone, run at most once
FnRank(x) == CASE x = "none" -> 0 [] x = "idle" -> 1 [] x = "run" -> 2 [] x = "fin" -> 3 [] x = "gone" -> 4
FnForward == [][\A m \in DOMAIN s.n : FnRank(s'.n[m].fn) >= FnRank(s.n[m].fn)]_s
NeverEarly == \A m \in Ids : s.n[m].k = "cnt" /\ s.n[m].fn = "run" => s.n[s.n[m].par].res # ""
\* nobody waits for a delivered node: attachments exist on pending nodes only
OblPending == \A m \in Ids : s.n[m].obl # {} => s.n[m].st = "pend"
\* C07/C08: a reachable node is never dead
NoDeadHandles == \A i \in Ids : (s.F[i] # 0 => s.n[s.F[i]].st # "dead") /\ (s.S[i] # 0 => s.n[s.S[i]].st # "dead")
\* C10
CancelTruth == \A m \in Ids : s.n[m].canc = "called" => s.n[m].st = "dead" /\ s.n[m].res = ""
\* C11, C12
AllReady == \A c \in Ids : s.n[c].k = "all" /\ s.n[c].res # "" =>
              \A j \in 1..Len(s.n[c].held) : s.n[s.n[c].held[j]].res # ""
AnyReady == \A c \in Ids : s.n[c].k = "any" /\ s.n[c].res # "" /\ s.n[c].held # <<>> =>
              s.n[c].ix \in 0..(Len(s.n[c].held) - 1) /\ s.n[s.n[c].held[s.n[c].ix + 1]].res # ""
\* C08: the function of a node that died before it ran never runs
DeadNeverRun == [][\A m \in DOMAIN s.n : s.n[m].st = "dead" /\ s.n[m].fn \in {"idle", "gone"} => s'.n[m].fn # "run"]_s
=============================================================================
