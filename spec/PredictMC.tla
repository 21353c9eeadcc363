------------------------------ MODULE PredictMC -----------------------------
(* However ties are broken (the code keeps the first of the best it meets    *)
(* going through the selected neurons in some order), the number of hits     *)
(* lies between Hits and Chances, and both can occur.                        *)
EXTENDS Predict
CONSTANTS Vals, Examples
VARIABLES exs, done
mvars == <<net, exs, done>>
Signs == {-1, 1}
Orders == {s \in UNION {[1..k -> 0..2] : k \in 0..3} :
             \A a, b \in 1..Len(s) : a # b => s[a] # s[b]}
Rows(n, m) == [1..n -> [1..m -> Vals]]
One == [n |-> 2, w |-> <<<<1, -1>>, <<-1, 1>>>>, b |-> <<0, 1>>, active |-> <<0, 1>>]
Init == /\ \E w \in Rows(3, 2), b \in {<<0, 0, 0>>, <<0, 1, 0>>}, on \in {<<>>, <<1>>, <<2, 0>>, <<0, 1, 2>>}, deep \in BOOLEAN :
             net = [layers |-> IF deep THEN <<One, [n |-> 3, w |-> w, b |-> b, active |-> on]>>
                               ELSE <<[n |-> 3, w |-> w, b |-> b, active |-> on]>>]
        /\ exs \in [1..Examples -> [x : {<<>>, <<<<0, 1>>, <<1, 2>>>>, <<<<1, -1>>>>},
                                    labels : {<<>>, <<0>>, <<2, 1>>}]]
Next == \/ ~done /\ done' = TRUE /\ UNCHANGED <<net, exs>>
        \/ done /\ UNCHANGED mvars
Spec == Init /\ done = FALSE /\ [][Next]_mvars
\* going through the neurons in the order s, keeping the first of the best
RECURSIVE Best1(_, _, _, _)
Best1(score, s, k, best) ==
    IF k > Len(s) THEN best
    ELSE Best1(score, s, k + 1, IF best = -1 THEN s[k]
                                ELSE IF score[s[k]] > score[best] THEN s[k] ELSE best)
Found(e, s) ==
    LET layer == net.layers[Len(net.layers)]
        in == TLCEval(Hidden(1, exs[e].x))
        score == TLCEval([j \in 0..2 |-> Score(layer, j, in)])
        j == Best1(score, s, 1, -1)
    IN \E k \in 1..Len(exs[e].labels) : exs[e].labels[k] = j
Walks == {s \in Orders : Len(s) = Len(net.layers[Len(net.layers)].active) /\
            {s[k] : k \in 1..Len(s)} = {net.layers[Len(net.layers)].active[k] : k \in 1..Len(s)}}
\* every choice of one walk per example
Counts == LET RECURSIVE C(_)
              C(e) == IF e = 0 THEN {0}
                      ELSE LET f == {Found(e, s) : s \in Walks}
                           IN {c + (IF g THEN 1 ELSE 0) : c \in C(e - 1), g \in f}
          IN C(Examples)
Bounds == done =>
          LET c == TLCEval(Counts)
              s == Sets(exs)
          IN /\ \A x \in c : PredictOK(exs, x)
             /\ Hits(s) \in c /\ Chances(s) \in c
=============================================================================
