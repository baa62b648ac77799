----------------------------- MODULE UFuncTrace -----------------------------
(* Validates traces recorded from the real unique_function against UFunc.    *)
EXTENDS UFunc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<uvars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ UInit
TNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tr
  /\ \/ Ev.k = "call" /\ Begin(Ev)
     \/ Ev.k = "ret" /\ Ret(Ev.r, Ev.al)
     \/ Ev.k = "run" /\ Run(Ev.f, Ev.n, Ev.a, Ev.y)
     \/ Ev.k = "dtor" /\ (Dtor(Ev.f) \/ EndDtor(Ev.f))
     \/ Ev.k = "cpy" /\ Copied(Ev.f)
     \/ Ev.k = "end" /\ Ev.leak = 0 /\ Ev.bodies = 0 /\ EndOK /\ UNCHANGED uvars
TSpec == TInit /\ [][TNext]_tvars
Report == IF More THEN TRUE ELSE PrintT(<<"ACC", Traces[tr].id>>)
Progress == PrintT(<<"AT", Traces[tr].id, l>>)
=============================================================================
