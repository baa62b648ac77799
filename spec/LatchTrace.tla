----------------------------- MODULE LatchTrace -----------------------------
(* Validates event traces recorded from the real pc::latch against Latch.    *)
EXTENDS Latch, Sequences, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<lvars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)

TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ LInit(Traces[tr].count)
Step(A) == A /\ l' = l + 1 /\ UNCHANGED tr
TNext ==
  /\ More
  /\ \/ LInternal /\ UNCHANGED <<tr, l>>
     \/ Ev.k = "call" /\ Step(LCall(Ev.t, Ev.o, Ev.n))
     \/ Ev.k = "ret" /\ Step(LRet(Ev.t, Ev.r))
     \/ Ev.k = "stuck" /\ LStuck({Ev.bl[i].t : i \in {j \in 1..Len(Ev.bl) : Ev.bl[j].on = "cond"}})
        /\ Step(UNCHANGED lvars)
     \/ Ev.k = "end" /\ LQuiet /\ Ev.leak = 0 /\ Step(UNCHANGED lvars)
TSpec == TInit /\ [][TNext]_tvars
Report == IF More THEN TRUE ELSE PrintT(<<"ACC", Traces[tr].id>>)
Progress == PrintT(<<"AT", Traces[tr].id, l>>)
=============================================================================
