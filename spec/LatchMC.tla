------------------------------ MODULE LatchMC -------------------------------
(* Exhaustive model checking of Latch for all programs in a bounded family:  *)
(* every thread performs any operations it is allowed to.                    *)
EXTENDS Latch, Sequences, TLC
CONSTANTS MaxCount, MaxOps
VARIABLES left   \* operations every thread may still start
mvars == <<lvars, left>>
MInit == /\ \E c \in 0..MaxCount : LInit(c)
         /\ left = [t \in Threads |-> MaxOps]
\* amount other threads have announced but not yet subtracted
Announced == LET S == {t \in Threads : th[t].ph = "called" /\ th[t].o \in {"cd", "cdw"}}
                 RECURSIVE Sum(_)
                 Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN th[x].n + Sum(X \ {x})
             IN Sum(S)
MCall(t) == /\ left[t] > 0
            /\ \E o \in {"cd", "cdw", "wait", "rdy", "del"}, n \in 0..MaxCount :
                 /\ o = "cdw" => n = 1
                 /\ o \in {"wait", "rdy", "del"} => n = 0
                 /\ o \in {"cd", "cdw"} => n >= 1 /\ n + Announced <= cnt
                 /\ LCall(t, o, n)
            /\ left' = [left EXCEPT ![t] = @ - 1]
MNext == \/ \E t \in Threads : MCall(t)
         \/ LInternal /\ UNCHANGED left
         \/ \E t \in Threads, r \in {"ok", "true", "false"} : LRet(t, r) /\ UNCHANGED left
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(LInternal /\ UNCHANGED left) /\ \A t \in Threads : WF_mvars(\E r \in {"ok", "true", "false"} : LRet(t, r) /\ UNCHANGED left)
\* once open every waiter is released, and the destructor completes
MLive == \A t \in Threads : (opened /\ th[t].ph # "idle") ~> (th[t].ph = "idle")
=============================================================================
