------------------------------ MODULE StatsTrace ----------------------------
EXTENDS Stats, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<cfg, hits, said, clock, tr, l>>
Ev == Traces[tr].ev[l]
Said == [n |-> Ev.n, features |-> Ev.features, labels |-> Ev.labels]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tr].cfg /\ hits = <<>> /\ said = Nothing
         /\ clock = NotYet
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "fill" /\ Fill(Ev.hits)
       \/ Ev.op = "batch" /\ Batch(Ev.ex, Ev.rehash, Ev.reports)
       \/ Ev.op = "announce" /\ Announce(Said)
       \/ Ev.op = "predict" /\ Evaluate(Said)
       \/ Ev.op = "train" /\ Trained
       \/ Ev.op = "final" /\ TellTime(Ev.us, Ev.wall)
       \/ Ev.op \in {"epoch", "running", "overall", "exit", "crash"} /\ UNCHANGED vars
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
