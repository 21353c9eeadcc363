------------------------------ MODULE IndexTrace ----------------------------
EXTENDS Index, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, handles, tr, l>>
Ev == Traces[tr].ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ shape = Traces[tr].cfg.layers /\ handles = <<>>
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ /\ Ev.op = "built" /\ handles = <<>>
          /\ (BuildOK(Ev.seen[1]) = TRUE)
          /\ handles' = <<[owner |-> Ev.owner, layers |-> Keep(Ev.seen[1])]>>
          /\ UNCHANGED shape
       \/ Ev.op = "train" /\ Op(Ev.h, Ev.owner, Ev.ret, Ev.seen,
                                LAMBDA b, s : TrainOK(b, s, Ev.rehash, Ev.rebuild))
       \/ Ev.op \in {"predict", "query"} /\ Op(Ev.h, Ev.owner, Ev.ret, Ev.seen, SameOK)
       \/ Ev.op = "redraw" /\ Op(Ev.h, Ev.owner, Ev.ret, Ev.seen, RedrawOK)
       \/ Ev.op = "clear" /\ Op(Ev.h, Ev.owner, Ev.ret, Ev.seen, ClearOK)
       \/ Ev.op = "add" /\ Op(Ev.h, Ev.owner, Ev.ret, Ev.seen,
                              LAMBDA b, s : AddOK(b, s, Ev.b, Ev.id))
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
