--------------------------- MODULE HashMemoTrace ----------------------------
EXTENDS HashMemo, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, memo, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ (Untouched(Ev.kept) = TRUE)
    /\ \/ Ev.op = "sparse" /\ HashSparse(Ev.kind, Ev.x, Ev.ret)
       \/ Ev.op = "dense" /\ HashDense(Ev.kind, Ev.x, Ev.ret)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
