-------------------------- MODULE FifoBucketTrace ---------------------------
(* Validates recorded histories of the real bucket. Every trace is an        *)
(* initial state; an event that FifoBucket does not allow deadlocks.         *)
EXTENDS FifoBucket, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<ring, hist, tr, l>>
Ev == Traces[tr].ev[l]
TInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "add" /\ Add(Ev.id, Ev.ret)
       \/ Ev.op = "reset" /\ Reset
       \/ Ev.op = "read" /\ Read(Ev.i, Ev.ret)
       \/ Ev.op = "list" /\ List(Ev.ret)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
