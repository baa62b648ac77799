----------------------------- MODULE PcFutureMC -----------------------------
(* Runs the programs of the harness on the specification itself: thread 0    *)
(* executes pre, then the other threads run, then thread 0 executes post.    *)
EXTENDS PcFuture
VARIABLES pc,   \* thread -> operations of its list already started
          rem,  \* function -> nested operations already started
          sg    \* signals given
mvars == <<pi, s, pc, rem, sg>>
Prog == Progs[pi]
NT == Len(Prog.threads)
List(t) == IF t = 0 THEN Prog.pre \o Prog.post ELSE IF t <= NT THEN Prog.threads[t] ELSE <<>>
MInit == pi \in 1..Len(Progs) /\ s = InitState /\ pc = [t \in Threads |-> 0] /\ rem = [m \in Ids |-> 0] /\ sg = {}
Idle(t) == s.fr[t] = <<>>
DoneList(t) == pc[t] = Len(List(t)) /\ Idle(t)
MayStep(t) ==
  /\ pc[t] < Len(List(t)) /\ Idle(t)
  /\ IF t = 0 THEN pc[0] < Len(Prog.pre) \/ \A u \in 1..NT : DoneList(u)
     ELSE pc[0] >= Len(Prog.pre) /\ (pc[0] > Len(Prog.pre) \/ Idle(0))
\* harness only operations
Silent(i, A) ==
  CASE Op(i).o = "awb" -> A /\ UNCHANGED <<s, sg>>
    [] Op(i).o = "sig" -> A /\ sg' = sg \cup {Op(i).a} /\ UNCHANGED s
    [] Op(i).o = "aws" -> Op(i).a \in sg /\ A /\ UNCHANGED <<s, sg>>
    [] OTHER -> FALSE
Start(t, i, A) ==
  IF Op(i).o \in {"awb", "sig", "aws"} THEN Silent(i, A)
  ELSE A /\ s' = CallS(s, t, i) /\ UNCHANGED sg
BaseCall(t) ==
  /\ MayStep(t)
  /\ Start(t, List(t)[pc[t] + 1], pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED rem)
InBody(t) == HasTop(s, t) /\ Top(s, t).f = "run" /\ Top(s, t).ph = "body"
NestedCall(t) ==
  /\ InBody(t)
  /\ LET m == Top(s, t).n IN
     /\ rem[m] < Len(Op(m).ops)
     /\ Start(t, Op(m).ops[rem[m] + 1], rem' = [rem EXCEPT ![m] = @ + 1] /\ UNCHANGED pc)
RetCands(t) ==
  {"ok", "satisfied", "thrown", "true", "false", "ready", "timeout", "ran", "none"}
  \cup (IF IsOp(s, t) THEN LET f == Top(s, t) IN
                           {f.r} \cup (IF f.n # 0 /\ Op(f.i).o \notin {"all", "any"} THEN {s.n[f.n].res} ELSE {})
                           \cup (IF f.n # 0 /\ Op(f.i).o = "geta" THEN {CombCode(s, f.n)} ELSE {}) ELSE {})
  \cup (IF HasTop(s, t) /\ Top(s, t).f = "pub" THEN {s.n[Top(s, t).n].res} ELSE {})
Sys(t) ==
  \/ \E w \in Internal(s, t) : s' = w
  \/ HasTop(s, t) /\ \E r \in RetCands(t) : \E w \in RetS(s, t, r, 0) : s' = w
  \/ \E m \in Ids : s.n[m].fn = "idle" /\ StartPoints(s, t, m) # {} /\ \E w \in RunS(s, t, m, RunArg(s, t, m), "y") : s' = w
  \/ HasTop(s, t) /\ Top(s, t).f = "run" /\ Top(s, t).ph = "arg" /\ LET m == Top(s, t).n p == s.n[m].par IN
        \E a \in {"kept", s.n[p].res} \cup (IF Op(m).o = "thena" THEN {CombCode(s, p)} ELSE {}) :
          \E w \in ArgS(s, t, m, a) : s' = w
  \/ InBody(t) /\ rem[Top(s, t).n] = Len(Op(Top(s, t).n).ops) /\ \E w \in FinS(s, t, Top(s, t).n) : s' = w
  \/ \E m \in Ids : s.n[m].fn = "idle" /\ \E w \in PostS(s, t, Op(m).x, m) : s' = w
  \/ \E q \in {"q1", "q2"} : s.q[q] # <<>> /\ \E w \in PopS(s, t, q, Head(s.q[q])) : s' = w
  \/ \E w \in TmoS(s, t) : s' = w
Env ==
  \/ \E m \in Ids : s.n[m].fn \in {"idle", "fin"} /\ \E w \in DtorS(s, m) : s' = w
  \/ \E m \in Ids : s.n[m].canc = "armed" /\ \E w \in CancelS(s, m) : s' = w
Finished == DoneList(0) /\ \A t \in 1..NT : DoneList(t)
MNext ==
  \/ \E t \in 0..NT : BaseCall(t) \/ NestedCall(t)
  \/ (\E t \in 0..NT : Sys(t)) /\ UNCHANGED <<pc, rem, sg>>
  \/ Env /\ UNCHANGED <<pc, rem, sg>>
  \/ (Finished \/ StuckOK(s)) /\ UNCHANGED <<s, pc, rem, sg>>
MSpec == MInit /\ [][MNext /\ UNCHANGED pi]_mvars
\* every complete run ends with nothing alive
EndClean == Finished => EndOK(s)
\* (C04) when nothing is going on no delivery is outstanding: obligations only on pending nodes
Inv == /\ Linked /\ NeverEarly /\ OblPending /\ NoDeadHandles /\ CancelTruth /\ AllReady /\ AnyReady /\ EndClean
=============================================================================
