------------------------------- MODULE Latch -------------------------------
(* Abstract specification of pc::latch (C15).                               *)
(* A call is three steps: Call (visible), one internal linearization step,  *)
(* Ret (visible, with the value returned to the user).                      *)
EXTENDS Integers, FiniteSets
CONSTANT Threads
VARIABLES cnt,    \* counter
          opened, \* history: the counter has reached zero
          del,    \* "no" | "deleting" | "yes"
          th      \* thread -> [o: operation, n: amount, ph: "idle"|"called"|"done", v: result]

lvars == <<cnt, opened, del, th>>
Idle == [o |-> "none", n |-> 0, ph |-> "idle", v |-> ""]

LInit(c) == /\ cnt = c /\ opened = (c = 0) /\ del = "no"
            /\ th = [t \in Threads |-> Idle]

\* Precondition of the user: an operation may only start while the latch exists.
LCall(t, o, n) ==
  /\ th[t].ph = "idle"
  /\ del = "no"
  /\ o = "del" => opened                  \* destruction allowed once the latch is open
  /\ o \in {"cd", "cdw"} => n <= cnt
  /\ th' = [th EXCEPT ![t] = [o |-> o, n |-> n, ph |-> "called", v |-> ""]]
  /\ del' = IF o = "del" THEN "deleting" ELSE del
  /\ UNCHANGED <<cnt, opened>>

\* linearization points -----------------------------------------------------
LDec(t) == /\ th[t].ph = "called" /\ th[t].o \in {"cd", "cdw"}
           /\ cnt' = cnt - th[t].n
           /\ opened' = (opened \/ cnt' = 0)
           /\ th' = [th EXCEPT ![t].ph = IF th[t].o = "cd" THEN "done" ELSE "waiting", ![t].v = "ok"]
           /\ UNCHANGED del
LWake(t) == /\ \/ th[t].ph = "called" /\ th[t].o = "wait"
               \/ th[t].ph = "waiting"
            /\ opened
            /\ th' = [th EXCEPT ![t].ph = "done", ![t].v = "ok"]
            /\ UNCHANGED <<cnt, opened, del>>
LRead(t) == /\ th[t].ph = "called" /\ th[t].o = "rdy"
            /\ th' = [th EXCEPT ![t].ph = "done", ![t].v = IF opened THEN "true" ELSE "false"]
            /\ UNCHANGED <<cnt, opened, del>>
\* the destructor completes only when nobody needs the latch any more: everybody still inside is
\* past its linearization point
LDel(t) == /\ th[t].ph = "called" /\ th[t].o = "del"
           /\ del = "deleting"
           /\ \A u \in Threads \ {t} : th[u].ph \in {"idle", "done"}
           /\ del' = "yes"
           /\ th' = [th EXCEPT ![t].ph = "done", ![t].v = "ok"]
           /\ UNCHANGED <<cnt, opened>>
LInternal == \E t \in Threads : LDec(t) \/ LWake(t) \/ LRead(t) \/ LDel(t)

LRet(t, r) == /\ th[t].ph = "done" /\ th[t].v = r
              /\ th' = [th EXCEPT ![t] = Idle]
              /\ UNCHANGED <<cnt, opened, del>>

\* Nothing can ever move again and somebody is inside an operation: legitimate only for waiters
\* of a latch which was never counted down to zero.
LBlocked == {t \in Threads : th[t].ph # "idle"}
LStuck(bl) == /\ ~opened
              /\ \A t \in bl : th[t].ph = "waiting" \/ (th[t].ph = "called" /\ th[t].o = "wait")
LQuiet == \A t \in Threads : th[t].ph = "idle"

\* properties ---------------------------------------------------------------
LTypeOK == cnt >= 0 /\ del \in {"no", "deleting", "yes"}
\* nobody is released before the counter reached zero
LNoEarly == \A t \in Threads : th[t].o \in {"wait", "cdw"} /\ th[t].ph = "done" => cnt = 0
LOpenIffZero == opened <=> cnt = 0
LNoUseAfterDelete == del = "yes" => \A t \in Threads : th[t].ph \in {"idle", "done"}
LMonotone == [][opened => opened']_lvars
=============================================================================
