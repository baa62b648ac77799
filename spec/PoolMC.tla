------------------------------- MODULE PoolMC -------------------------------
(* Executes the same programs as the harness on the specification alone:     *)
(* every interleaving is explored, the invariants of Pool are checked and a   *)
(* state without successor that is not a regular end is a deadlock.           *)
EXTENDS Pool, Json, TLC, IOUtils
Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES p,     \* program
          sc,    \* thread -> stack of [ops, i, own]: scripts being executed
          gates  \* opened gates
mvars == <<pvars, p, sc, gates>>
P == Progs[p]
TaskRec(f) == P.tasks[ToString(f)]
Ops(f) == IF "ops" \in DOMAIN TaskRec(f) THEN TaskRec(f).ops ELSE <<>>
DOps(f) == IF "dops" \in DOMAIN TaskRec(f) THEN TaskRec(f).dops ELSE <<>>
NT == Len(P.threads)
Script(ops, own) == [ops |-> ops, i |-> 1, own |-> own, d |-> FALSE]
DScript(ops, own) == [ops |-> ops, i |-> 1, own |-> own, d |-> TRUE]     \* destructor
MInit == /\ p \in 1..Len(Progs) /\ gates = {}
         /\ PInit(Progs[p].n, Progs[p].single = 1)
         /\ sc = [t \in Threads |-> IF t = 0 THEN <<Script(Progs[p].pre, 0)>> ELSE <<>>]
STop(t) == sc[t][Len(sc[t])]
Exhausted(t) == sc[t] # <<>> /\ STop(t).i > Len(STop(t).ops)
\* a script element may start only if the operation below it is not in progress (nested scripts
\* belong to a task frame or to a destructor)
Depth(t) == Len(fr[t])
Fresh(t) == sc[t] # <<>> /\ ~Exhausted(t) /\ STop(t).own = Depth(t)
Op(t) == STop(t).ops[STop(t).i]
Advance(t) == sc' = [sc EXCEPT ![t][Len(sc[t])].i = @ + 1]
OpId(o) == IF "id" \in DOMAIN o THEN o.id ELSE 0
MCall(t) == /\ Fresh(t) /\ Op(t).o \notin {"open", "await", "see"}
            /\ PCall(t, Op(t).o, OpId(Op(t))) /\ Advance(t) /\ UNCHANGED <<p, gates>>
MGate(t) == /\ Fresh(t) /\ Op(t).o \in {"open", "await", "see"}
            /\ Op(t).o = "await" => Op(t).id \in gates
            /\ gates' = IF Op(t).o = "open" THEN gates \cup {Op(t).id} ELSE gates
            /\ Advance(t) /\ UNCHANGED <<pvars, p>>
MRet(t) == \E r \in {"ok", "v", "broken"} :
             PRet(t, r) /\ sc[t] # <<>> /\ STop(t).own < Depth(t) /\ UNCHANGED <<p, sc, gates>>
MRun(t) == \E f \in Tasks : /\ PRun(t, f)
                            /\ sc' = [sc EXCEPT ![t] = Append(@, Script(Ops(f), Depth(t) + 1))]
                            /\ UNCHANGED <<p, gates>>
MFin(t) == \E f \in Tasks : /\ Exhausted(t) /\ ~STop(t).d /\ STop(t).own = Depth(t) /\ PFin(t, f)
                            /\ sc' = [sc EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                            /\ UNCHANGED <<p, gates>>
\* who destroys the function object: the worker that ran it, the poster if refused, the dropping
\* thread if cancelled, the destructor otherwise
Destroyer(t, f) == \/ ts[f] = "finished" /\ wk[t].in /\ f \in wk[t].fin
                   \/ ts[f] \in {"refused", "cancelled"} /\ fr[t] # <<>> /\ Top(t).id = f
                   \/ ts[f] = "queued" /\ InOp(t, "del", "clearing")
MDtor(t) == \E f \in Tasks : /\ Destroyer(t, f) /\ PDtor(t, f)
                             /\ sc' = [sc EXCEPT ![t] = Append(@, DScript(DOps(f), Depth(t) + 1))]
                             /\ UNCHANGED <<p, gates>>
\* end of a destructor script
MPop(t) == /\ Exhausted(t) /\ STop(t).d /\ STop(t).own = Depth(t)
           /\ \E f \in Tasks : PDtorEnd(t, f)
           /\ sc' = [sc EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
           /\ UNCHANGED <<p, gates>>
Forked == \E t \in (P.n + 1)..(P.n + NT) : sc[t] # <<>>
MFork == /\ NT > 0 /\ Len(sc[0]) = 1 /\ Exhausted(0) /\ fr[0] = <<>> /\ ~Forked
         /\ sc' = [t \in Threads |-> IF t \in (P.n + 1)..(P.n + NT) THEN <<Script(P.threads[t - P.n], 0)>> ELSE sc[t]]
         /\ UNCHANGED <<pvars, p, gates>>
MJoin == /\ Len(sc[0]) = 1 /\ Exhausted(0) /\ fr[0] = <<>> /\ STop(0).ops # P.post
         /\ NT > 0 => Forked
         /\ \A t \in (P.n + 1)..(P.n + NT) : Len(sc[t]) = 1 /\ Exhausted(t) /\ fr[t] = <<>>
         /\ sc' = [sc EXCEPT ![0] = <<Script(P.post, 0)>>]
         /\ UNCHANGED <<pvars, p, gates>>
Done == /\ Len(sc[0]) = 1 /\ Exhausted(0) /\ fr[0] = <<>> /\ STop(0).ops = P.post
MNext == \/ \E t \in Threads : MCall(t) \/ MGate(t) \/ MRet(t) \/ MRun(t) \/ MFin(t) \/ MDtor(t) \/ MPop(t)
         \/ PInternal /\ UNCHANGED <<p, sc, gates>>
         \/ MFork \/ MJoin
         \/ Done /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars
MEnd == Done => PEnd
=============================================================================
