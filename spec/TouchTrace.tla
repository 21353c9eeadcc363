------------------------------ MODULE TouchTrace ----------------------------
EXTENDS Touch, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<net, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ net = Traces[tr].cfg
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED net
    /\ \/ Ev.op = "train" /\ (BatchOK(Ev.ex, Ev.changed) = TRUE)
       \/ Ev.op = "later" /\ (LaterOK(Ev.ex, Ev.changed) = TRUE)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
