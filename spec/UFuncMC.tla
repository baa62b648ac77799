------------------------------ MODULE UFuncMC -------------------------------
(* All histories of at most MaxOps operations on the specification itself.   *)
EXTENDS UFunc
CONSTANT MaxOps
VARIABLE k
mvars == <<uvars, k>>
Kinds == {"small", "big", "fp", "mdp", "null"}
E0 == [o |-> "", i |-> k + 1, a |-> 0, b |-> 0, f |-> 0, kd |-> "", thr |-> 0, lv |-> 0, sg |-> "val"]
Calls ==
  \E o \in {"mk", "mv", "swap", "smv", "drop", "bool", "call", "sm"}, a, b \in Slots :
    \E kd \in (IF o = "mk" THEN Kinds ELSE {""}), thr \in (IF o \in {"mk", "call"} THEN {0, 1} ELSE {0}),
       lv \in (IF o = "mk" THEN {0, 1} ELSE {0}) :
      /\ (o \in {"mv", "swap", "sm"} \/ a = b)
      /\ (o = "mv" => a # b)
      /\ (thr = 1 /\ o = "mk" => kd = "big")
      /\ Begin([E0 EXCEPT !.o = o, !.a = a, !.b = b, !.kd = kd, !.thr = thr, !.lv = lv,
                          !.f = IF o = "mk" /\ kd # "null" THEN k + 1 ELSE 0])
Rets == {"ok", "thrown", "true", "false", "badcall"} \cup (IF cur.x > 0 THEN {"m" \o ToString(cur.x), RunCode} ELSE {})
MNext ==
  \/ k < MaxOps /\ Calls /\ k' = k + 1
  \/ UNCHANGED k /\ \/ \E r \in Rets : Ret(r, 0)
                    \/ \E f \in Fns : Run(f, fn[f].n + 1, ArgCode, "y") \/ Dtor(f) \/ Copied(f)
  \/ k = MaxOps /\ cur.o = "none" /\ UNCHANGED mvars
MSpec == UInit /\ k = 0 /\ [][MNext]_mvars
\* an operation in progress can always finish: checked as absence of deadlock
=============================================================================
