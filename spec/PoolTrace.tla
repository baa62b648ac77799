----------------------------- MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<pvars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ PInit(Traces[tr].n, Traces[tr].single = 1)
Step(A) == A /\ l' = l + 1 /\ UNCHANGED tr
TNext ==
  /\ More
  /\ \/ PInternal /\ UNCHANGED <<tr, l>>
     \/ Ev.k = "call" /\ Step(PCall(Ev.t, Ev.o, Ev.id))
     \/ Ev.k = "ret" /\ Step(PRet(Ev.t, Ev.r))
     \/ Ev.k = "run" /\ Ev.ok = "y" /\ Step(PRun(Ev.t, Ev.f))
     \/ Ev.k = "fin" /\ Step(PFin(Ev.t, Ev.f))
     \/ Ev.k = "dtor" /\ Step(PDtor(Ev.t, Ev.f))
     \/ Ev.k = "dend" /\ Step(PDtorEnd(Ev.t, Ev.f))
     \/ Ev.k = "end" /\ Ev.leak = 0 /\ PEnd /\ Step(UNCHANGED pvars)
TSpec == TInit /\ [][TNext]_tvars
Report == IF More THEN TRUE ELSE PrintT(<<"ACC", Traces[tr].id>>)
Progress == PrintT(<<"AT", Traces[tr].id, l>>)
=============================================================================
