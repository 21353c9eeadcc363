------------------------------ MODULE TrainTrace ----------------------------
EXTENDS Train
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<net, handles, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "train" /\ Train(tr, l, Ev.h, Ev.owner, Ev.iter, Ev.ex, Ev.ret, Ev.acts)
       \/ Ev.op = "predict" /\ Predict(tr, l, Ev.h, Ev.owner, Ev.ret, Ev.acts)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
