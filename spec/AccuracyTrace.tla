----------------------------- MODULE AccuracyTrace --------------------------
EXTENDS Accuracy, Sequences, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<phase, correct, total, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ AInit
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op \in {"epoch", "train"} /\ Else(FALSE)
       \/ Ev.op = "exit" /\ Else(Ev.code # 0)
       \/ Ev.op = "crash" /\ Else(TRUE)
       \/ Ev.op = "predict" /\ Batch(Ev.n, Ev.right)
       \/ Ev.op = "running" /\ Running(Ev.x)
       \/ Ev.op = "overall" /\ Overall(Ev.x)
       \/ Ev.op = "final" /\ Final(Ev.x)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
