------------------------------ MODULE BuildTrace ----------------------------
EXTENDS Build, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<cfg, nets, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tr].cfg /\ nets = 0
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "built" /\ nets = 0 /\ Built(Ev.seen) /\ nets' = 1 /\ UNCHANGED cfg
       \/ Ev.op = "drawn" /\ (DrawnOK(Ev) = TRUE) /\ UNCHANGED vars
       \/ Ev.op = "write" /\ Write(Ev.cell, Ev.changed)
       \/ Ev.op = "again" /\ Again(Ev.changed, Ev.same)
       \/ Ev.op = "program" /\ Program(Ev.got, Ev.want)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
