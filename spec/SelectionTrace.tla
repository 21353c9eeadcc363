--------------------------- MODULE SelectionTrace ---------------------------
EXTENDS Selection, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, l
tvars == <<shape, tr, l>>
Ev == Traces[tr].ev[l]
Weights == Traces[tr].cfg.weights
Bias == Traces[tr].cfg.bias
TInit == tr \in 1..Len(Traces) /\ l = 1
         /\ InitWith([n |-> Traces[tr].cfg.n, softmax |-> Traces[tr].cfg.softmax])
Step ==
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ \/ Ev.op = "threshold" /\ Query(ThresholdOK(Ev.labels, Ev.buckets, Ev.active, Ev.in))
       \/ Ev.op = "sampling" /\ Query(SamplingOK(Ev.labels, Ev.buckets, Ev.active, Ev.in))
       \/ Ev.op = "dense" /\ Query(DenseOK(Ev.active))
       \/ Ev.op = "random" /\ Query(RandomOK(Ev.labels, Ev.num, Ev.den, Ev.active))
       \/ Ev.op = "chance" /\ Query(EveryoneCame(Ev.seen)
                                        /\ NoPattern(Ev.times, Ev.drawn, Ev.free, Ev.together))
       \/ Ev.op = "often" /\ Query(OftenOK(Ev.mode, Ev.labels, Ev.buckets, Ev.sizes, Ev.always, Ev.ever))
       \/ Ev.op = "exact" /\ Query(ExactOK(Ev.labels, Ev.num, Ev.den,
                                  TLCEval(Scores(Weights, Bias, Ev.x)), Ev.active))
Done == l > Len(Traces[tr].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ Done]_tvars
=============================================================================
