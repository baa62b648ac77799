--------------------------- MODULE PcFutureTrace ----------------------------
(* Validates traces recorded from the real code against PcFuture.            *)
EXTENDS PcFuture
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<pi, s, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ pi = Traces[tr].p /\ s = InitState
Vis(e) ==
  CASE e.k = "call" -> {CallS(s, e.t, e.i)}
    [] e.k = "ret" -> RetS(s, e.t, e.r, e.ad)
    [] e.k = "run" -> RunS(s, e.t, e.f, e.a, e.y)
    [] e.k = "arg" -> ArgS(s, e.t, e.f, e.a)
    [] e.k = "fin" -> FinS(s, e.t, e.f)
    [] e.k = "dtor" -> DtorS(s, e.f)
    [] e.k = "cancel" -> CancelS(s, e.n)
    [] e.k = "post" -> PostS(s, e.t, e.q, e.n)
    [] e.k = "pop" -> PopS(s, e.t, e.q, e.n)
    [] e.k = "tmo" -> TmoS(s, e.t)
    [] e.k = "stuck" -> IF StuckOK(s) THEN {s} ELSE {}
    [] e.k = "end" -> IF e.leak = 0 /\ EndOK(s) THEN {s} ELSE {}
    [] OTHER -> {}
TNext ==
  /\ More
  /\ UNCHANGED <<pi, tr>>
  /\ \/ /\ l' = l
        /\ \E t \in Threads : \E w \in Internal(s, t) : s' = w
     \/ /\ l' = l + 1
        /\ \E w \in Vis(Ev) : s' = w
TSpec == TInit /\ [][TNext]_tvars
Report == IF More THEN TRUE ELSE PrintT(<<"ACC", Traces[tr].id>>)
Progress == PrintT(<<"AT", Traces[tr].id, l>>)
=============================================================================
