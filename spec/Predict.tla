------------------------------- MODULE Predict ------------------------------
(* What predicting a batch answers. Weights and inputs are integers, so that *)
(* the whole forward pass is computed here.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES net   \* layers: sequence of [n, w (rows), b, active]; active: the
                \* neurons a prediction selects
vars == <<net>>

RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Score(layer, j, in) ==
    Sum([k \in 1..Len(in) |-> layer.w[j + 1][in[k][1] + 1] * in[k][2]], Len(in)) + layer.b[j + 1]
Relu(x) == IF x > 0 THEN x ELSE 0
\* what the layers before the last hand on: pairs <<neuron, value>>
RECURSIVE Hidden(_, _)
Hidden(la, in) ==
    IF la = Len(net.layers) THEN in
    ELSE LET layer == net.layers[la]
             out == TLCEval([k \in 1..Len(layer.active) |->
                        <<layer.active[k], Relu(Score(layer, layer.active[k], in))>>])
         IN Hidden(la + 1, out)
\* the best-scoring selected neurons of the last layer (several: a tie)
Best(x) ==
    LET layer == net.layers[Len(net.layers)]
        in == TLCEval(Hidden(1, x))
        on == {layer.active[k] : k \in 1..Len(layer.active)}
        score == TLCEval([j \in on |-> Score(layer, j, in)])
    IN {j \in on : \A i \in on : score[j] >= score[i]}
Sets(exs) == TLCEval([e \in 1..Len(exs) |->
    [best |-> TLCEval(Best(exs[e].x)), labels |-> {exs[e].labels[k] : k \in 1..Len(exs[e].labels)}]])
\* hits: surely right; chances: right for some way of breaking ties
Hits(s) == Cardinality({e \in 1..Len(s) : s[e].best # {} /\ s[e].best \subseteq s[e].labels})
Chances(s) == Cardinality({e \in 1..Len(s) : s[e].best \cap s[e].labels # {}})
PredictOK(exs, correct) ==
    LET s == Sets(exs) IN Hits(s) <= correct /\ correct <= Chances(s)
=============================================================================
