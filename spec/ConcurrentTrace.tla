--------------------------- MODULE ConcurrentTrace --------------------------
(* Owners that worked at the same time, each on its own forks of a network   *)
(* at rest. As Concurrent.tla shows, every owner gets what it would have got *)
(* alone, so that its operations can be looked at one after the other; at    *)
(* the end every network still shows what it showed its owner last. A race   *)
(* (event "race") is allowed nowhere.                                        *)
EXTENDS Train
Traces == JsonDeserialize("traces.json")
VARIABLES seen,  \* per handle, the event after which its owner saw it last
          tr, l
tvars == <<net, handles, seen, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg) /\ seen = <<0>>
Forked(h, owner, ver) ==
    IF handles[h].owner = owner THEN [handles EXCEPT ![h].ver = ver]
    ELSE Append(handles, [handles[h] EXCEPT !.ver = ver, !.owner = owner])
Noted(q, ret) == IF ret <= Len(seen) THEN [seen EXCEPT ![ret] = q] ELSE Append(seen, q)
TrainAlone(t, q, h, owner, iter, exs, ret) ==
    LET v == handles[h].ver
        hs == TLCEval(Forked(h, owner, q))
        fwd(e) == ForwardDefs(t, v, q, e, exs[e]) \o ErrorDefs(t, v, q, e, exs[e])
    IN /\ ret = Result(h, owner)
       /\ handles' = hs /\ seen' = Noted(q, ret) /\ UNCHANGED net
       /\ Emit(<<RateDef(t, q, iter)>> \o Each(fwd, Upto(Len(exs)))
               \o UpdateDefs(t, v, q, exs) \o Shows(t, q, ret, q))
PredictAlone(t, q, h, owner, ret) ==
    /\ ret = Result(h, owner)
    /\ handles' = Forked(h, owner, handles[h].ver) /\ seen' = Noted(q, ret) /\ UNCHANGED net
    /\ Emit(<<Same(t, q, ret, seen[h], h)>>)
\* training on what random or exact-top selection chose: left open
FreeAlone(t, q, h, owner, ret) ==
    /\ ret = Result(h, owner)
    /\ handles' = Forked(h, owner, handles[h].ver) /\ seen' = Noted(q, ret) /\ UNCHANGED net
JoinAll(t, q) == /\ UNCHANGED <<net, handles, seen>>
              /\ Emit(Map(LAMBDA k : Same(t, q, k, seen[k], k), Upto(Len(handles))))
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "train" /\ TrainAlone(tr, l, Ev.h, Ev.owner, Ev.iter, Ev.ex, Ev.ret)
       \/ Ev.op = "predict" /\ PredictAlone(tr, l, Ev.h, Ev.owner, Ev.ret)
       \/ Ev.op = "free" /\ FreeAlone(tr, l, Ev.h, Ev.owner, Ev.ret)
       \/ Ev.op = "join" /\ JoinAll(tr, l)
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
