-------------------------- MODULE AddressingTrace ---------------------------
EXTENDS Addressing, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, seen, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "index" /\ (Untouched(Ev.kept) = TRUE) /\ Index(Ev.codes, Ev.ret)
       \/ Ev.op = "spread" /\ (Spread = TRUE) /\ UNCHANGED vars
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
