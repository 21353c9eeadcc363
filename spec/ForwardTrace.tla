----------------------------- MODULE ForwardTrace ---------------------------
EXTENDS Forward
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<net, hs, act, norm, outs, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "forward" /\ Forward(tr, l, Ev.h, Ev.owner, Ev.slot,
                                       Input(tr, l, Ev.src, Ev.input), Ev.active, Ev.ret)
       \/ Ev.op = "rest" /\ Rest(tr, l, Ev.h, Ev.slot, Ev.nodes)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
