------------------------------- MODULE UFunc --------------------------------
(* unique_function: slots own at most one callable each; a callable is       *)
(* created with the slot, moves between slots keeping its state, and is      *)
(* destroyed exactly once, when its slot is overwritten or destroyed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Fns
VARIABLES sl,    \* slot -> 0 empty, callable, -1 moved from (unspecified)
          fn,    \* callable -> [k: kind, st: no live gone, n: invocations]
          cur    \* operation in progress
uvars == <<sl, fn, cur>>
NullKinds == {"nfp", "nmfp", "nmdp", "null", "nstd"}
Unowned == {"fp", "mfp", "mdp", "rw"}                 \* nothing is destroyed with the slot
NoAlloc == {"fp", "mfp", "mdp", "nfp", "nmfp", "nmdp", "null"}   \* documented: kept inside the object
None == [o |-> "none", ph |-> "none", i |-> 0, a |-> 0, b |-> 0, f |-> 0, kd |-> "", thr |-> 0, lv |-> 0, sg |-> "",
         die |-> {}, x |-> 0]
UInit == /\ sl = [s \in Slots |-> 0]
         /\ fn = [f \in Fns |-> [k |-> "", st |-> "no", n |-> 0]]
         /\ cur = None
Owned(f) == IF f > 0 /\ fn[f].k \notin Unowned THEN {f} ELSE {}
MovedFrom(v) == IF v = 0 THEN 0 ELSE -1
Sw(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]

Begin(e) ==
  /\ cur.o = "none"
  /\ LET c == [None EXCEPT !.o = e.o, !.ph = "called", !.i = e.i, !.a = e.a, !.b = e.b, !.f = e.f, !.kd = e.kd,
                           !.thr = e.thr, !.lv = e.lv, !.sg = e.sg, !.x = sl[e.a]]
         new == [k |-> e.kd, st |-> "live", n |-> 0]
     IN CASE e.o = "mk" /\ e.kd \in NullKinds ->
               sl' = [sl EXCEPT ![e.a] = 0] /\ cur' = [c EXCEPT !.die = Owned(sl[e.a]), !.ph = "done"] /\ UNCHANGED fn
          [] e.o = "mk" /\ e.thr = 0 ->
               /\ fn[e.f].st = "no" /\ fn' = [fn EXCEPT ![e.f] = new] /\ sl' = [sl EXCEPT ![e.a] = e.f]
               /\ cur' = [c EXCEPT !.die = Owned(sl[e.a]), !.ph = IF e.lv = 1 /\ e.kd \notin Unowned THEN "copy" ELSE "done"]
          [] e.o = "mk" /\ e.thr = 1 ->        \* constructing the callable throws: nothing changes
               /\ fn[e.f].st = "no" /\ fn' = [fn EXCEPT ![e.f] = [new EXCEPT !.st = IF e.lv = 1 THEN "gone" ELSE "live"]] /\ UNCHANGED sl
               /\ cur' = [c EXCEPT !.die = IF e.lv = 1 THEN {} ELSE {e.f}, !.ph = "thrown"]
          [] e.o = "mv" ->
               /\ sl' = [sl EXCEPT ![e.b] = sl[e.a], ![e.a] = MovedFrom(sl[e.a])]
               /\ cur' = [c EXCEPT !.die = Owned(sl[e.b]), !.ph = "done"] /\ UNCHANGED fn
          [] e.o = "swap" -> sl' = Sw(sl, e.a, e.b) /\ cur' = [c EXCEPT !.ph = "done"] /\ UNCHANGED fn
          [] e.o = "smv" ->      \* self move: keeps its callable or gives it up
               \/ cur' = [c EXCEPT !.ph = "done"] /\ UNCHANGED <<sl, fn>>
               \/ cur' = [c EXCEPT !.ph = "done", !.die = Owned(sl[e.a])] /\ sl' = [sl EXCEPT ![e.a] = MovedFrom(@)] /\ UNCHANGED fn
          [] e.o = "drop" ->
               sl' = [sl EXCEPT ![e.a] = 0] /\ cur' = [c EXCEPT !.die = Owned(sl[e.a]), !.ph = "done"] /\ UNCHANGED fn
          [] e.o = "bool" -> cur' = c /\ UNCHANGED <<sl, fn>>
          [] e.o = "call" -> sl[e.a] # -1 /\ cur' = c /\ UNCHANGED <<sl, fn>>
          [] e.o = "sm" ->       \* moved into the small function of an executor, invoked, moved to b
               /\ sl[e.a] # -1
               /\ sl' = IF e.a = e.b THEN sl ELSE [sl EXCEPT ![e.b] = sl[e.a], ![e.a] = MovedFrom(sl[e.a])]
               /\ cur' = [c EXCEPT !.die = IF e.a = e.b THEN {} ELSE Owned(sl[e.b])] /\ UNCHANGED fn
          [] OTHER -> FALSE
Copied(f) == cur.ph = "copy" /\ cur.f = f /\ cur' = [cur EXCEPT !.ph = "done"] /\ UNCHANGED <<sl, fn>>
ArgCode == "a" \o ToString(cur.i)
Run(f, n, a, y) ==
  /\ cur.o \in {"call", "sm"} /\ cur.ph = "called" /\ cur.x = f /\ f > 0
  /\ fn[f].st = "live" /\ fn[f].k # "mdp"
  /\ n = fn[f].n + 1 /\ a = ArgCode /\ y = "y"
  /\ fn' = [fn EXCEPT ![f].n = n] /\ cur' = [cur EXCEPT !.ph = "ran"] /\ UNCHANGED sl
Dtor(f) ==
  /\ cur.o # "none" /\ f \in cur.die /\ fn[f].st = "live"
  /\ IF cur.o = "sm" /\ cur.ph = "called" /\ cur.x > 0 THEN fn[cur.x].k = "mdp" ELSE TRUE
  /\ fn' = [fn EXCEPT ![f].st = "gone"] /\ UNCHANGED <<sl, cur>>
RunCode == IF cur.sg = "void" THEN "ok" ELSE "r" \o ToString(cur.x) \o "." \o ToString(fn[cur.x].n) \o "." \o ToString(cur.i)
RetOK(r, al) ==
  CASE cur.ph = "done" -> r = "ok" /\ (cur.o = "mk" /\ cur.kd \in NoAlloc /\ cur.x = 0 => al = 0)
    [] cur.ph = "thrown" -> r = "thrown" /\ al = 0
    [] cur.o = "bool" -> CASE cur.x > 0 -> r = "true" [] cur.x = 0 -> r = "false" [] OTHER -> r \in {"true", "false"}
    [] cur.o \in {"call", "sm"} /\ cur.ph = "called" ->
         CASE cur.x = 0 -> r = "badcall"
           [] cur.x > 0 /\ fn[cur.x].k = "mdp" -> r = "m" \o ToString(cur.x)
           [] OTHER -> FALSE
    [] cur.o \in {"call", "sm"} /\ cur.ph = "ran" -> r = IF cur.thr = 1 THEN "thrown" ELSE RunCode
    [] OTHER -> FALSE
Ret(r, al) ==
  /\ cur.o # "none" /\ RetOK(r, al)
  /\ \A f \in cur.die : fn[f].st = "gone"
  /\ cur' = None /\ UNCHANGED <<sl, fn>>
\* destruction of all slots at the end
EndDtor(f) ==
  /\ cur.o = "none" /\ fn[f].st = "live" /\ \E s \in Slots : sl[s] = f /\ fn[f].k \notin Unowned
  /\ fn' = [fn EXCEPT ![f].st = "gone"] /\ UNCHANGED cur /\ sl' = [s \in Slots |-> IF sl[s] = f THEN 0 ELSE sl[s]]
EndOK == cur.o = "none" /\ \A f \in Fns : fn[f].st = "live" => fn[f].k \in Unowned

\* exactly one owner; what is live is owned; nothing dead is owned
OneOwner == \A s1, s2 \in Slots : s1 # s2 /\ sl[s1] > 0 => sl[s1] # sl[s2]
OwnedLive == cur.o = "none" => \A s \in Slots : sl[s] > 0 => fn[sl[s]].st = "live"
NoOrphan == cur.o = "none" => \A f \in Fns : fn[f].st = "live" /\ fn[f].k \notin Unowned => \E s \in Slots : sl[s] = f
Once == [][\A f \in Fns : fn[f].st = "gone" => fn'[f].st = "gone"]_uvars
=============================================================================
