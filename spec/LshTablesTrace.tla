--------------------------- MODULE LshTablesTrace ---------------------------
EXTENDS LshTables, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<nt, nb, tab, log, other, tr, l>>
Ev == Traces[tr].ev[l]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ InitWith(Traces[tr].cfg.l, Traces[tr].cfg.b)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "add" /\ Add(Ev.ix, Ev.id, Ev.ret)
       \/ Ev.op = "single" /\ AddSingle(Ev.t, Ev.b, Ev.id, Ev.ret)
       \/ Ev.op = "clear" /\ Clear
       \/ Ev.op = "clone" /\ Clone
       \/ Ev.op = "swap" /\ Swap
       \/ Ev.op = "raw" /\ Raw(Ev.ix, Ev.ret)
       \/ Ev.op = "read" /\ Retrieve(Ev.t, Ev.b, Ev.i, Ev.ret)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
