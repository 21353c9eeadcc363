------------------------------ MODULE Forward -------------------------------
(* The forward pass: layers, each with nodes and batch slots. A query makes  *)
(* some neurons of a layer active on a slot and determines their values and  *)
(* the normalisation constant of that slot; everything else stays. A query   *)
(* under another owner id leaves the layer as it was and does all that on a  *)
(* copy, a new handle.                                                       *)
EXTENDS Terms
VARIABLES net,    \* layers: sequence of [n, softmax]; slots count from 0
          hs,     \* handles: [la, owner], the layer each holds and for whom
          act,    \* <<handle, slot>> -> node -> term observed as activation
          norm,   \* <<handle, slot>> -> term of the normalisation constant
          outs    \* query -> what it hands to the next layer
vars == <<net, hs, act, norm, outs>>

Nodes(la) == 0..(net.layers[la].n - 1)
Unknown == "?"
InitWith(c) ==
    /\ net = c
    /\ hs = [k \in 1..Len(c.layers) |-> [la |-> k, owner |-> c.owner]]
    /\ act = [k \in (1..Len(c.layers)) \X (0..(c.slots - 1)) |->
                [j \in 0..(c.layers[k[1]].n - 1) |-> Zero]]
    /\ norm = <<>> /\ outs = <<>>

W(t, la, j, i) == N("w", <<t, la, j, i>>)
B(t, la, j) == N("b", <<t, la, j>>)
\* weighted sum of the inputs (pairs <<index, term>>) plus the bias
Score(t, la, j, input) ==
    SumOf([k \in 1..Len(input) |-> Times(W(t, la, j, input[k][1]), input[k][2])]
          \o <<B(t, la, j)>>)

\* Names of what query q of trace t computes for node j.
Z(t, q, j) == N("z", <<t, q, j>>)
A(t, q, j) == N("a", <<t, q, j>>)
MaxName(t, q) == N("max", <<t, q>>)
NormName(t, q) == N("norm", <<t, q>>)
Map(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]

Defs(t, q, la, input, active) ==
    LET zdef(j) == Def(Z(t, q, j), Score(t, la, j, input))
        zname(j) == Z(t, q, j)
        aname(j) == A(t, q, j)
        rdef(j) == Def(A(t, q, j), <<"relu", Z(t, q, j)>>)
        edef(j) == Def(A(t, q, j), <<"exp", Minus(Z(t, q, j), MaxName(t, q))>>)
    IN Map(zdef, active) \o
       IF net.layers[la].softmax
       THEN (IF active = <<>> THEN <<>>
             ELSE <<Def(MaxName(t, q), <<"max">> \o Map(zname, active))>>)
            \o Map(edef, active)
            \o <<Def(NormName(t, q), SumOf(Map(aname, active)))>>
       ELSE Map(rdef, active)

\* the handle an operation of that owner on h works on
Target(h, owner) == IF hs[h].owner = owner THEN h ELSE Len(hs) + 1
HandlesAfter(h, owner) ==
    IF hs[h].owner = owner THEN hs ELSE Append(hs, [la |-> hs[h].la, owner |-> owner])
\* everything the new handle starts with is what the old one has
Inherit(f, h, g) == IF h = g THEN f
                    ELSE [k \in {<<g, s>> : s \in {x[2] : x \in {y \in DOMAIN f : y[1] = h}}} |-> f[<<h, k[2]>>]] @@ f

ActAfter(t, q, h, g, slot, active) ==
    LET on == TLCEval({active[k] : k \in 1..Len(active)})
        old == act[<<h, slot>>]
    IN [Inherit(act, h, g) EXCEPT ![<<g, slot>>] =
          [j \in Nodes(hs[h].la) |->
             IF j \in on THEN A(t, q, j)
             \* left over from an earlier example: not specified
             ELSE IF old[j] = Zero THEN Zero ELSE Unknown]]
NormAfter(t, q, h, g, slot) ==
    IF net.layers[hs[h].la].softmax THEN (<<g, slot>> :> NormName(t, q)) @@ Inherit(norm, h, g)
    ELSE Inherit(norm, h, g)
Input(t, q, src, idx) ==
    IF src = 0 THEN [k \in 1..Len(idx) |-> <<idx[k], N("x", <<t, q, k>>)>>]
    ELSE outs[src]

\* what can be seen after event q, through every handle
O(tag, t, q, rest) == N("o" \o tag, <<t, q>> \o rest)
SeenAct(t, q, handles, acts) ==
    Concat([x \in 1..Len(handles) |-> Concat([s \in 1..net.slots |->
         LET a == acts[<<x, s - 1>>]
             sure(j) == a[j] # Unknown
             known == Filter(net.layers[handles[x].la].n, sure)
         IN [k \in 1..Len(known) |->
               Expect(O("act", t, q, <<x, s - 1, known[k]>>), a[known[k]])]])])
SeenNorm(t, q, handles, norms) ==
    Concat([x \in 1..Len(handles) |->
         LET set(s) == <<x, s>> \in DOMAIN norms
             ss == Filter(net.slots, set)
         IN [k \in 1..Len(ss) |-> Expect(O("norm", t, q, <<x, ss[k]>>), norms[<<x, ss[k]>>])]])
Values(t, q, active) ==
    [k \in 1..Len(active) |-> Expect(O("v", t, q, <<k>>), A(t, q, active[k]))]
\* the scores over the constant are a probability distribution
SumsToOne(t, q, g, la, slot, active) ==
    IF net.layers[la].softmax /\ active # <<>>
    THEN <<[y |-> Over(SumOf([k \in 1..Len(active) |-> O("v", t, q, <<k>>)]),
                       O("norm", t, q, <<g, slot>>)), e |-> One]>>
    ELSE <<>>

\* ret: the handle the code returned (a known one, or a new one)
Forward(t, q, h, owner, slot, input, active, ret) ==
    LET la == hs[h].la
        g == Target(h, owner)
        handles == TLCEval(HandlesAfter(h, owner))
        acts == TLCEval(ActAfter(t, q, h, g, slot, active))
        norms == TLCEval(NormAfter(t, q, h, g, slot))
    IN /\ (\A k \in 1..Len(active) : active[k] \in Nodes(la)) = TRUE
       /\ (ret = g) = TRUE
       /\ hs' = handles /\ act' = acts /\ norm' = norms
       /\ outs' = (q :> [k \in 1..Len(active) |-> <<active[k], A(t, q, active[k])>>]) @@ outs
       /\ UNCHANGED net
       /\ Emit(Defs(t, q, la, input, active) \o Values(t, q, active)
               \o SeenAct(t, q, handles, acts) \o SeenNorm(t, q, handles, norms)
               \o SumsToOne(t, q, g, la, slot, active))

\* Back-propagation puts a neuron's slot to rest.
Rest(t, q, h, slot, nodes) ==
    LET acts == TLCEval([act EXCEPT ![<<h, slot>>] =
                   [j \in Nodes(hs[h].la) |-> IF \E k \in 1..Len(nodes) : nodes[k] = j
                                              THEN Zero ELSE act[<<h, slot>>][j]]])
    IN /\ act' = acts
       /\ UNCHANGED <<net, hs, norm, outs>>
       /\ Emit(SeenAct(t, q, hs, acts) \o SeenNorm(t, q, hs, norm))
=============================================================================
