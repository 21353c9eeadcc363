---------------------------- MODULE MinhashTrace ----------------------------
EXTENDS Minhash, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, maps, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "probes" /\ ProbesOK /\ UNCHANGED vars
       \/ Ev.op = "map" /\ GetMap(Ev.n, Ev.ret)
       \/ Ev.op = "hash" /\ Hash(Ev.x, Ev.k, Ev.map, Ev.ret)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
