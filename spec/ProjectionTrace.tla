-------------------------- MODULE ProjectionTrace ---------------------------
EXTENDS Projection, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, coef, drawn, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "learn" /\ Learn(Ev.d, Ev.a, Ev.b)
       \/ Ev.op = "formed" /\ Formed
       \/ Ev.op = "varied" /\ Varied
       \/ Ev.op = "renew" /\ Renew
       \/ Ev.op = "dense" /\ Dense(Ev.x, Ev.ret)
       \/ Ev.op = "sparse" /\ Sparse(Ev.x, Ev.ret)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
