-------------------------------- MODULE Pool --------------------------------
(* Specification of pc::static_thread_pool as seen by its users (C13, C14):  *)
(* tasks are accepted while the pool is open, every accepted task is taken   *)
(* by one worker (own or attached thread), stop/wait/attach/destructor.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Tasks
VARIABLES nown,    \* number of own workers (thread ids 1..nown)
          single,  \* TRUE if there can be at most one worker thread: tasks start in FIFO order
          life,    \* "none" | "live" | "dying" (destructor joined all workers) | "gone"
          q,       \* accepted tasks nobody has taken yet
          closed, stopped,
          ts,      \* task -> status
          wk,      \* thread -> [in: is a worker right now, cur: task taken, bud: tasks it may start after stop]
          fr       \* thread -> stack of operations in progress
pvars == <<nown, single, life, q, closed, stopped, ts, wk, fr>>

NoWk == [in |-> FALSE, cur |-> 0, bud |-> 0, left |-> FALSE, fin |-> {}]
PInit(n, s) ==
  /\ nown = n /\ single = s /\ life = "none" /\ q = <<>> /\ closed = FALSE /\ stopped = FALSE
  /\ ts = [f \in Tasks |-> "none"]
  /\ wk = [t \in Threads |-> NoWk]
  /\ fr = [t \in Threads |-> <<>>]

Own == 1..nown
Top(t) == fr[t][Len(fr[t])]
InOp(t, o, ph) == fr[t] # <<>> /\ Top(t).o = o /\ Top(t).ph = ph
SetTop(t, ph) == fr' = [fr EXCEPT ![t][Len(fr[t])].ph = ph]
Workers == {t \in Threads : wk[t].in}
Pending == {f \in Tasks : ts[f] \in {"queued", "taken", "locked", "running", "finished"}}

\* visible: start of an operation -------------------------------------------
PCall(t, o, id) ==
  /\ o # "mk" => (life \in {"live", "dying"} \/ o \in {"get", "dropf"})
  /\ o = "mk" => life = "none"
  /\ o \in {"post", "async"} => ts[id] = "none"
  /\ fr' = [fr EXCEPT ![t] = Append(@, [o |-> o, id |-> id, ph |-> "called"])]
  /\ ts' = IF o \in {"post", "async"} THEN [ts EXCEPT ![id] = "calling"] ELSE ts
  /\ UNCHANGED <<nown, single, life, q, closed, stopped, wk>>

\* internal steps -------------------------------------------------------------
PMake(t) == /\ InOp(t, "mk", "called") /\ SetTop(t, "done")
            /\ life' = "live"
            /\ wk' = [u \in Threads |-> IF u \in Own THEN [wk[u] EXCEPT !.in = TRUE, !.bud = 1] ELSE wk[u]]
            /\ UNCHANGED <<nown, single, q, closed, stopped, ts>>
PPush(t) ==
  /\ fr[t] # <<>> /\ Top(t).o \in {"post", "async"} /\ Top(t).ph = "called"
  /\ LET f == Top(t).id IN
     /\ SetTop(t, "done")
     /\ IF closed THEN ts' = [ts EXCEPT ![f] = "refused"] /\ UNCHANGED q
                  ELSE ts' = [ts EXCEPT ![f] = "queued"] /\ q' = Append(q, f)
  /\ UNCHANGED <<nown, single, life, closed, stopped, wk>>
\* stop(): first the workers are told, then the queue is closed
PStop1(t) == /\ fr[t] # <<>> /\ Top(t).o \in {"stop", "del"} /\ Top(t).ph = "called"
             /\ SetTop(t, "stopping") /\ stopped' = TRUE
             /\ UNCHANGED <<nown, single, life, q, closed, ts, wk>>
PStop2(t) == /\ fr[t] # <<>> /\ Top(t).o \in {"stop", "del"} /\ Top(t).ph = "stopping"
             /\ SetTop(t, IF Top(t).o = "stop" THEN "done" ELSE "joining") /\ closed' = TRUE
             /\ UNCHANGED <<nown, single, life, q, stopped, ts, wk>>
PWaitClose(t) == /\ InOp(t, "wait", "called") /\ SetTop(t, "joining") /\ closed' = TRUE
                 /\ UNCHANGED <<nown, single, life, q, stopped, ts, wk>>
\* wait() joins the own workers, which leave together with the attached ones
Joined == nown > 0 => Workers = {}
PWaitDone(t) == /\ InOp(t, "wait", "joining") /\ Joined
                /\ nown > 0 => \A f \in Tasks : ts[f] \notin {"taken", "locked", "running", "finished"}
                /\ (nown > 0 /\ ~stopped) => Pending = {}
                /\ SetTop(t, "done")
                /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, wk>>
PDelJoined(t) == /\ InOp(t, "del", "joining") /\ Workers = {}
                 /\ SetTop(t, "clearing") /\ life' = "dying"
                 /\ UNCHANGED <<nown, single, q, closed, stopped, ts, wk>>
PDelDone(t) == /\ InOp(t, "del", "clearing") /\ Pending = {}
               /\ SetTop(t, "done") /\ q' = <<>> /\ life' = "gone"
               /\ UNCHANGED <<nown, single, closed, stopped, ts, wk>>
PAttach(t) == /\ InOp(t, "attach", "called") /\ SetTop(t, "working")
              /\ wk' = [wk EXCEPT ![t] = [in |-> TRUE, cur |-> 0, bud |-> IF stopped THEN 0 ELSE 1, left |-> FALSE, fin |-> {}]]
              /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts>>
\* a worker leaves when it was stopped or the queue is closed and drained
Idle(t) == wk[t].in /\ wk[t].cur = 0 /\ (IF t \in Own THEN fr[t] = <<>> ELSE InOp(t, "attach", "working"))
PLeave(t) == /\ Idle(t)
             /\ \A f \in wk[t].fin : ts[f] # "finished"     \* what it executed it has released
             /\ stopped \/ (closed /\ q = <<>>)
             /\ wk' = [wk EXCEPT ![t].in = FALSE, ![t].left = TRUE]
             /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, fr>>
PAttachDone(t) == /\ InOp(t, "attach", "working") /\ wk[t].left /\ Workers = {}
                  /\ SetTop(t, "done")
                  /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, wk>>
\* a worker takes a task
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PTake(t) ==
  /\ Idle(t) /\ q # <<>>
  /\ stopped => wk[t].bud > 0
  /\ \E i \in 1..Len(q) :
       /\ single => i = 1
       /\ q' = RemoveAt(q, i)
       /\ IF ts[q[i]] = "queued"
          THEN ts' = [ts EXCEPT ![q[i]] = "taken"] /\
               wk' = [wk EXCEPT ![t].cur = q[i], ![t].bud = IF stopped THEN 0 ELSE 1]
          ELSE UNCHANGED <<ts, wk>>          \* cancelled in the meantime: nothing to do
  /\ UNCHANGED <<nown, single, life, closed, stopped, fr>>
\* the point of no return: afterwards the task cannot be cancelled by dropping its future
PLock(t) == /\ wk[t].cur # 0 /\ ts[wk[t].cur] = "taken"
            /\ ts' = [ts EXCEPT ![wk[t].cur] = "locked"]
            /\ UNCHANGED <<nown, single, life, q, closed, stopped, wk, fr>>
PDropCancelled(t) == /\ wk[t].cur # 0 /\ ts[wk[t].cur] \in {"cancelled", "dropped"}
                     /\ wk' = [wk EXCEPT ![t].cur = 0]
                     /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, fr>>
\* futures of async tasks
PDropFut(t) == /\ InOp(t, "dropf", "called") /\ SetTop(t, "done")
               /\ ts' = [ts EXCEPT ![Top(t).id] = IF @ \in {"queued", "taken", "refused"} THEN "cancelled" ELSE @]
               /\ UNCHANGED <<nown, single, life, q, closed, stopped, wk>>
PInternal == \E t \in Threads :
  \/ PMake(t) \/ PPush(t) \/ PStop1(t) \/ PStop2(t) \/ PWaitClose(t) \/ PWaitDone(t)
  \/ PDelJoined(t) \/ PDelDone(t) \/ PAttach(t) \/ PLeave(t) \/ PAttachDone(t)
  \/ PTake(t) \/ PLock(t) \/ PDropCancelled(t) \/ PDropFut(t)

\* visible: a task runs / finishes / its function object is destroyed -----------
PRun(t, f) == /\ wk[t].in /\ wk[t].cur = f /\ ts[f] = "locked"
              /\ ts' = [ts EXCEPT ![f] = "running"]
              /\ fr' = [fr EXCEPT ![t] = Append(@, [o |-> "task", id |-> f, ph |-> "run"])]
              /\ UNCHANGED <<nown, single, life, q, closed, stopped, wk>>
PFin(t, f) == /\ fr[t] # <<>> /\ Top(t) = [o |-> "task", id |-> f, ph |-> "run"]
              /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
              /\ ts' = [ts EXCEPT ![f] = "finished"]
              /\ wk' = [wk EXCEPT ![t].cur = 0, ![t].fin = @ \cup {f}]
              /\ UNCHANGED <<nown, single, life, q, closed, stopped>>
PDtor(t, f) == /\ \/ ts[f] = "finished" /\ ts' = [ts EXCEPT ![f] = "released"]
                  \/ ts[f] \in {"refused", "cancelled"} /\ ts' = [ts EXCEPT ![f] = "dropped"]
                  \/ ts[f] = "queued" /\ life = "dying" /\ ts' = [ts EXCEPT ![f] = "dropped"]
               /\ fr' = [fr EXCEPT ![t] = Append(@, [o |-> "dtor", id |-> f, ph |-> "run"])]
               /\ UNCHANGED <<nown, single, life, q, closed, stopped, wk>>
PDtorEnd(t, f) == /\ fr[t] # <<>> /\ Top(t) = [o |-> "dtor", id |-> f, ph |-> "run"]
                  /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                  /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, wk>>
\* visible: return of an operation ------------------------------------------------
PRet(t, r) ==
  /\ fr[t] # <<>>
  /\ LET f == Top(t) IN
     /\ \/ /\ f.ph = "done" /\ r = "ok"
           /\ f.o \in {"post", "async"} => ts[f.id] # "refused"    \* refused tasks are gone at once
           /\ f.o = "dropf" => ts[f.id] # "cancelled"
        \/ /\ f.o = "get" /\ f.ph = "called"
           /\ \/ r = "v" /\ ts[f.id] \in {"finished", "released"}
              \/ r = "broken" /\ ts[f.id] = "dropped"
     /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<nown, single, life, q, closed, stopped, ts, wk>>
PEnd == /\ \A t \in Threads : fr[t] = <<>>
        /\ \A f \in Tasks : ts[f] \in {"none", "released", "dropped"}
        /\ life \in {"none", "gone"}

\* properties ---------------------------------------------------------------------
PTypeOK == /\ \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
           /\ \A t, u \in Threads : t # u /\ wk[t].cur # 0 => wk[t].cur # wk[u].cur
\* when wait() has returned (and nobody stopped the pool) everything accepted is finished and released
PDrained == \A t \in Threads : InOp(t, "wait", "done") /\ ~stopped /\ nown > 0 => Pending = {}
\* nothing runs once the pool is gone
PGone == life \in {"dying", "gone"} => \A f \in Tasks : ts[f] \notin {"running", "locked", "taken"}
\* a task changes its status only forward and runs at most once
PForward == [][\A f \in Tasks : /\ ts[f] \in {"released", "dropped"} => ts'[f] = ts[f]
                                /\ ts'[f] = "running" => ts[f] \in {"locked", "running"}
                                /\ ts[f] \in {"finished"} => ts'[f] \in {"finished", "released"}]_pvars
=============================================================================
