----------------------------- MODULE PredictTrace ---------------------------
EXTENDS Predict, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<net, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ net = Traces[tr].cfg
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED net
    /\ \/ Ev.op = "predict" /\ (PredictOK(Ev.ex, Ev.correct) = TRUE)
       \/ Ev.op = "other"
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
