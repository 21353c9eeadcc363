------------------------------ MODULE DriverTrace ---------------------------
EXTENDS Driver, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<cfg, e, i, done, correct, total, told, ended, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ Init(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "epoch" /\ ReportEpoch(Ev.k)
       \/ Ev.op = "train" /\ Train(Ev.iter, Ev.rehash, Ev.rebuild, Ev.recs)
       \/ Ev.op = "predict" /\ Ev.recs # <<>> /\ Predict(Ev.recs, Ev.right)
       \/ Ev.op = "predict" /\ Ev.recs = <<>> /\ PredictNothing(Ev.right)
       \/ Ev.op = "final" /\ ReportIter(Ev.iter)
       \/ Ev.op = "exit" /\ Exit(Ev.code, {Ev.lines[k] : k \in 1..Len(Ev.lines)})
Done == l > Len(Traces[tr].ev) /\ ended /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
