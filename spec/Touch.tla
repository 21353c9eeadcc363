-------------------------------- MODULE Touch -------------------------------
(* Which parameters one training batch may change when nothing else is       *)
(* pending (zero moments, or no Adam). Integer networks: the selections and  *)
(* the activations that matter are computed here.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES net   \* layers: sequence of [n, w, b, sel, ids, places]
                \* sel: how neurons are selected: "all"; "ids" (these, and
                \* the labels in the output layer); "top" (exact-top mode) and
                \* "any" (random mode) with a number of places
vars == <<net>>
Depth == Len(net.layers)
SetOf(s) == {s[k] : k \in 1..Len(s)}

RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Score(layer, j, in) ==
    Sum([k \in 1..Len(in) |-> layer.w[j + 1][in[k][1] + 1] * in[k][2]], Len(in)) + layer.b[j + 1]
Relu(x) == IF x > 0 THEN x ELSE 0

\* The neurons that may be selected (with ties: for some order of them).
May(la, in, labels) ==
    LET layer == net.layers[la]
        all == 0..(layer.n - 1)
        lab == IF la = Depth THEN SetOf(labels) ELSE {}
    IN CASE layer.sel = "all" -> all
         [] layer.sel = "ids" -> SetOf(layer.ids) \cup lab
         [] layer.sel = "any" -> IF layer.places = 0 THEN {} ELSE all
         [] layer.sel = "top" ->
              LET score == TLCEval([j \in all |-> Score(layer, j, in)])
                  room == layer.places - Cardinality(lab)
              IN IF layer.places = 0 THEN {}
                 ELSE lab \cup {j \in all \ lab :
                         Cardinality({i \in all \ lab : score[i] > score[j]}) < room}
\* Per layer: the neurons that may learn and the inputs they may learn from.
RECURSIVE Reach(_, _, _)
Reach(la, in, labels) ==
    LET layer == net.layers[la]
        sel == TLCEval(May(la, in, labels))
        here == [neurons |-> sel,
                 inputs |-> {in[k][1] : k \in {m \in 1..Len(in) : la = 1 \/ in[m][2] > 0}}]
        ids == SelectSeq([k \in 1..layer.n |-> k - 1], LAMBDA j : j \in sel)
        out == TLCEval([k \in 1..Len(ids) |-> <<ids[k], Relu(Score(layer, ids[k], in))>>])
    IN IF la = Depth THEN <<here>> ELSE <<here>> \o Reach(la + 1, out, labels)

\* changed: per layer the rows <<neuron, bias changed?, changed inputs>>
BatchOK(exs, changed) ==
    LET reach == TLCEval([e \in 1..Len(exs) |-> Reach(1, exs[e].x, exs[e].labels)])
        room(e) == LET layer == net.layers[Depth]
                       fit == Cardinality(SetOf(exs[e].labels))
                   IN IF fit >= layer.places THEN 0 ELSE layer.places - fit
        labelled == UNION {SetOf(exs[e].labels) : e \in 1..Len(exs)}
    IN /\ \A la \in 1..Depth : \A r \in 1..Len(changed[la]) :
             LET j == changed[la][r][1]
                 by == {e \in 1..Len(exs) : j \in reach[e][la].neurons}
             IN /\ by # {}
                /\ SetOf(changed[la][r][3]) \subseteq UNION {reach[e][la].inputs : e \in by}
       \* random places: no more neurons than there are places for
       /\ net.layers[Depth].sel = "any" =>
             Cardinality({r \in 1..Len(changed[Depth]) : changed[Depth][r][1] \notin labelled})
                <= Sum([e \in 1..Len(exs) |-> room(e)], Len(exs))
\* A later batch: the parameters are no longer known, so any selected neuron
\* of the layer below may have been positive.
LaterOK(exs, changed) ==
    LET sel(la, e) == May(la, <<>>, exs[e].labels)
        inputs(la, e) == IF la = 1 THEN {exs[e].x[k][1] : k \in 1..Len(exs[e].x)}
                         ELSE sel(la - 1, e)
    IN \A la \in 1..Depth : \A r \in 1..Len(changed[la]) :
          LET by == {e \in 1..Len(exs) : changed[la][r][1] \in sel(la, e)}
          IN by # {} /\ SetOf(changed[la][r][3]) \subseteq UNION {inputs(la, e) : e \in by}
=============================================================================
