-------------------------------- MODULE Train -------------------------------
(* Training, predicting and forking networks. A network is reached through a *)
(* handle; handles made by operations under a new owner are forks. The       *)
(* parameters of a handle are versions: version q is what event q made.      *)
EXTENDS Terms
VARIABLES net,      \* layers: sequence of [n, prev]; batch size; adam
          handles   \* sequence of [ver, owner, acts]; acts: the activations it shows
vars == <<net, handles>>

Depth == Len(net.layers)
InitWith(c) == net = c /\ handles = <<[ver |-> 0, owner |-> c.owner, acts |-> c.acts]>>

\* parameters as of version v of trace t
W(t, v, la, j, i) == N("w", <<t, v, la, j, i>>)
B(t, v, la, j) == N("b", <<t, v, la, j>>)
M(t, v, la, j, i) == IF v = 0 THEN Zero ELSE N("m", <<t, v, la, j, i>>)
V(t, v, la, j, i) == IF v = 0 THEN Zero ELSE N("v", <<t, v, la, j, i>>)
MB(t, v, la, j) == IF v = 0 THEN Zero ELSE N("mb", <<t, v, la, j>>)
VB(t, v, la, j) == IF v = 0 THEN Zero ELSE N("vb", <<t, v, la, j>>)

\* values of example e of event q
Z(t, q, e, la, j) == N("z", <<t, q, e, la, j>>)
A(t, q, e, la, j) == N("a", <<t, q, e, la, j>>)
P(t, q, e, j) == N("p", <<t, q, e, j>>)
D(t, q, e, la, j) == N("d", <<t, q, e, la, j>>)
MaxName(t, q, e) == N("max", <<t, q, e>>)
NormName(t, q, e) == N("norm", <<t, q, e>>)
Map(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
Each(f(_), s) == Concat(Map(f, s))
Upto(n) == [k \in 1..n |-> k]
From0(n) == [k \in 1..n |-> k - 1]

\* ex: [ix: feature indices, labels, active: per layer the active neurons]
Input(t, q, e, ex, la) ==
    IF la = 1 THEN [k \in 1..Len(ex.ix) |-> <<ex.ix[k], N("x", <<t, q, e, k>>)>>]
    ELSE [k \in 1..Len(ex.active[la - 1]) |->
            <<ex.active[la - 1][k], A(t, q, e, la - 1, ex.active[la - 1][k])>>]

\* ---- forward, with the parameters of version v
ForwardDefs(t, v, q, e, ex) ==
    LET layer(la) ==
          LET in == TLCEval(Input(t, q, e, ex, la))
              act == ex.active[la]
              z(j) == Def(Z(t, q, e, la, j),
                          SumOf([k \in 1..Len(in) |-> Times(W(t, v, la, j, in[k][1]), in[k][2])]
                                \o <<B(t, v, la, j)>>))
              zn(j) == Z(t, q, e, la, j)
              an(j) == A(t, q, e, la, j)
              r(j) == Def(A(t, q, e, la, j), <<"relu", Z(t, q, e, la, j)>>)
              x(j) == Def(A(t, q, e, la, j), <<"exp", Minus(Z(t, q, e, la, j), MaxName(t, q, e))>>)
              p(j) == Def(P(t, q, e, j),
                          Over(A(t, q, e, la, j), Plus(NormName(t, q, e), "#1/10000000")))
          IN Map(z, act) \o
             IF la < Depth THEN Map(r, act)
             ELSE IF act = <<>> THEN <<>>
             ELSE <<Def(MaxName(t, q, e), <<"max">> \o Map(zn, act))>> \o Map(x, act)
                  \o <<Def(NormName(t, q, e), SumOf(Map(an, act)))>> \o Map(p, act)
    IN Each(layer, Upto(Depth))

\* ---- backward: the error of every active neuron, last layer first
ErrorDefs(t, v, q, e, ex) ==
    LET share == IF ex.labels = <<>> THEN Zero ELSE Rat(1, Len(ex.labels))
        out(j) == Def(D(t, q, e, Depth, j),
                      Over(Minus(IF Has(ex.labels, j) THEN share ELSE Zero, P(t, q, e, j)),
                           Rat(net.batch, 1)))
        layer(b) ==
          LET la == Depth - b
              above == ex.active[la + 1]
              d(j) == Def(D(t, q, e, la, j),
                          <<"gate", A(t, q, e, la, j),
                            SumOf([k \in 1..Len(above) |->
                                     Times(D(t, q, e, la + 1, above[k]),
                                           W(t, v, la + 1, above[k], j))])>>)
          IN Map(d, ex.active[la])
    IN Map(out, ex.active[Depth]) \o Each(layer, Upto(Depth - 1))

\* ---- the gradient of every parameter, summed over the batch
WeightGrad(t, q, exs, ins, la, j, i) ==
    LET one(e) == IF ~Has(exs[e].active[la], j) THEN <<>>
                  ELSE LET in == ins[e][la]
                           hit == SelectSeq(Upto(Len(in)), LAMBDA k : in[k][1] = i)
                           c(k) == Times(D(t, q, e, la, j), in[k][2])
                       IN Map(c, hit)
    IN SumOf(Each(one, Upto(Len(exs))))
BiasGrad(t, q, exs, la, j) ==
    LET one(e) == IF Has(exs[e].active[la], j) THEN <<D(t, q, e, la, j)>> ELSE <<>>
    IN SumOf(Each(one, Upto(Len(exs))))

Rate(t) == N("lr", <<t>>)
RateName(t, q) == N("rate", <<t, q>>)
Pow(b, n) == <<"pow", b, Rat(n, 1)>>
Beta1 == "#9/10"
Beta2 == "#999/1000"
\* bias-corrected rate of iteration iter (counted from 0)
RateDef(t, q, iter) ==
    Def(RateName(t, q),
        IF net.adam
        THEN Over(Times(Rate(t), <<"sqrt", Minus(One, Pow(Beta2, iter + 1))>>),
                  Minus(One, Pow(Beta1, iter + 1)))
        ELSE Rate(t))

\* ---- one step for one parameter: names of the old and new versions
StepDefs(t, q, g, gterm, w0, m0, v0, w1, m1, v1) ==
    <<Def(g, gterm)>> \o
    IF net.adam
    THEN <<Def(m1, Plus(Times(Beta1, m0), Times("#1/10", g))),
           Def(v1, Plus(Times(Beta2, v0), Times("#1/1000", Times(g, g)))),
           Def(w1, Plus(w0, Over(Times(RateName(t, q), m1),
                                 Plus(<<"sqrt", v1>>, "#1/100000000"))))>>
    ELSE <<Def(w1, Plus(w0, Times(RateName(t, q), g)))>>
UpdateDefs(t, v, q, exs) ==
    LET ins == TLCEval([e \in 1..Len(exs) |->
                  [la \in 1..Depth |-> Input(t, q, e, exs[e], la)]])
        layer(la) ==
          LET neuron(j) ==
                LET weight(i) == StepDefs(t, q, N("g", <<t, q, la, j, i>>),
                        WeightGrad(t, q, exs, ins, la, j, i),
                        W(t, v, la, j, i), M(t, v, la, j, i), V(t, v, la, j, i),
                        W(t, q, la, j, i), M(t, q, la, j, i), V(t, q, la, j, i))
                IN Each(weight, From0(net.layers[la].prev))
                   \o StepDefs(t, q, N("gb", <<t, q, la, j>>), BiasGrad(t, q, exs, la, j),
                        B(t, v, la, j), MB(t, v, la, j), VB(t, v, la, j),
                        B(t, q, la, j), MB(t, q, la, j), VB(t, q, la, j))
          IN Each(neuron, From0(net.layers[la].n))
    IN Each(layer, Upto(Depth))

\* ---- what a handle shows after event q when it stands for version v
O(tag, t, q, h, rest) == N("o" \o tag, <<t, q, h>> \o rest)
Shows(t, q, h, v) ==
    LET layer(la) ==
                LET neuron(j) ==
                      LET weight(i) ==
                            <<Expect(O("w", t, q, h, <<la, j, i>>), W(t, v, la, j, i))>> \o
                            IF net.adam
                            THEN <<Expect(O("m", t, q, h, <<la, j, i>>), M(t, v, la, j, i)),
                                   Expect(O("v", t, q, h, <<la, j, i>>), V(t, v, la, j, i)),
                                   Expect(O("t", t, q, h, <<la, j, i>>), Zero)>>
                            ELSE <<>>
                      IN Each(weight, From0(net.layers[la].prev))
                         \o <<Expect(O("b", t, q, h, <<la, j>>), B(t, v, la, j))>> \o
                         IF net.adam
                         THEN <<Expect(O("mb", t, q, h, <<la, j>>), MB(t, v, la, j)),
                                Expect(O("vb", t, q, h, <<la, j>>), VB(t, v, la, j)),
                                Expect(O("tb", t, q, h, <<la, j>>), Zero)>>
                         ELSE <<>>
                IN Each(neuron, From0(net.layers[la].n))
    IN Each(layer, Upto(Depth))
\* everything handle h shows after event q is what h0 showed after event q0,
\* bit for bit
Same(t, q, h, q0, h0) == [same |-> N("o", <<t, q, h>>), as |-> N("o", <<t, q0, h0>>)]
SameBut(t, q, h) == Map(LAMBDA k : Same(t, q, k, q - 1, k),
                        SelectSeq(Upto(Len(handles)), LAMBDA k : k # h))

\* ---- actions
\* An operation under another owner than the handle's makes a new handle.
\* acts: the activations every handle shows afterwards; only those of the
\* result may have changed.
After(h, owner, ver, acts) ==
    IF handles[h].owner = owner
    THEN [handles EXCEPT ![h].ver = ver, ![h].acts = acts[h]]
    ELSE Append(handles, [ver |-> ver, owner |-> owner, acts |-> acts[Len(handles) + 1]])
Unmoved(acts, ret) == \A k \in 1..Len(handles) : k # ret => acts[k] = handles[k].acts
Result(h, owner) == IF handles[h].owner = owner THEN h ELSE Len(handles) + 1

Active(ex) == Len(ex.active) = Depth
Train(t, q, h, owner, iter, exs, ret, acts) ==
    LET v == handles[h].ver
        hs == TLCEval(After(h, owner, q, acts))
        fwd(e) == ForwardDefs(t, v, q, e, exs[e]) \o ErrorDefs(t, v, q, e, exs[e])
    IN /\ ret = Result(h, owner)
       /\ (Unmoved(acts, ret) = TRUE)
       /\ handles' = hs /\ UNCHANGED net
       /\ Emit(<<RateDef(t, q, iter)>> \o Each(fwd, Upto(Len(exs)))
               \o UpdateDefs(t, v, q, exs) \o Shows(t, q, ret, q)
               \o SameBut(t, q, ret))

\* Prediction changes nothing that is learned.
Predict(t, q, h, owner, ret, acts) ==
    LET hs == TLCEval(After(h, owner, handles[h].ver, acts))
    IN /\ ret = Result(h, owner)
       /\ (Unmoved(acts, ret) = TRUE)
       /\ handles' = hs /\ UNCHANGED net
       /\ Emit(<<Same(t, q, ret, q - 1, h)>> \o SameBut(t, q, ret))
=============================================================================
