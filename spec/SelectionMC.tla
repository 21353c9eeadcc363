---------------------------- MODULE SelectionMC -----------------------------
(* Step-by-step versions of the LSH-guided and random selections, as a layer *)
(* performs them, end in a state that Selection explains, for every table    *)
(* content, label list, start position and fill order.                       *)
EXTENDS Selection
CONSTANTS N, Tables, Sparse
VARIABLES mode, labels, buckets, order, start, pc, todo, act, in
mvars == <<vars, mode, labels, buckets, order, start, pc, todo, act, in>>
Buckets == {<<>>, <<0>>, <<1>>, <<2, 0>>, <<1, 2>>}
LabelLists == {<<>>, <<1>>, <<3, 3>>, <<2, 1>>}
Perms == {p \in [1..N -> Neurons] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Init ==
    /\ \E sm \in BOOLEAN : InitWith([n |-> N, softmax |-> sm])
    /\ mode \in {"threshold", "sampling", "random"}
    /\ labels \in LabelLists
    /\ buckets \in [1..Tables -> Buckets]
    /\ order \in {p \in Perms : p[1] < 2}
    /\ start \in 1..N
    /\ pc = "collect" /\ todo = 1 /\ act = <<>> /\ in = 0
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
AddNew(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
RECURSIVE AddAll(_, _)
AddAll(s, xs) == IF xs = <<>> THEN s ELSE AddAll(AddNew(s, Head(xs)), Tail(xs))
const == <<shape, mode, labels, buckets, order, start>>
Lab == IF shape.softmax THEN labels ELSE <<>>
\* sampling: labels, then one table after the other, then the fill
Collect == /\ pc = "collect" /\ mode = "sampling"
           /\ act' = AddAll(IF todo = 1 THEN AddAll(act, Lab) ELSE act, buckets[todo])
           /\ todo' = todo + 1
           /\ IF todo = Tables
              THEN pc' = "fill" /\ in' = Len(act') ELSE pc' = pc /\ in' = in
           /\ UNCHANGED const
Fill == /\ pc = "fill" /\ mode = "sampling"
        /\ IF todo - Tables > 2 * N \/ Len(act) >= Floor
           THEN pc' = "done" /\ UNCHANGED <<act, todo>>
           ELSE LET k == todo - Tables     \* from start to the end, then all
                    c == IF k <= N - start + 1 THEN order[start + k - 1]
                         ELSE order[((k - (N - start + 1) - 1) % N) + 1]
                IN act' = AddNew(act, c) /\ todo' = todo + 1 /\ pc' = pc
        /\ UNCHANGED <<const, in>>
\* threshold: neurons in any order
Pick == /\ pc = "collect" /\ mode = "threshold"
        /\ LET n == order[todo] IN
           act' = IF Hits(n, buckets) > Threshold \/ Has(Lab, n) THEN Append(act, n) ELSE act
        /\ todo' = todo + 1
        /\ IF todo = N THEN pc' = "done" /\ in' = Len(act') ELSE pc' = pc /\ in' = in
        /\ UNCHANGED const
\* random: labels as far as they fit, then draws
Draw == /\ pc = "collect" /\ mode = "random" /\ shape.softmax
        /\ IF Len(act) = Places(Sparse, 4) THEN pc' = "done" /\ UNCHANGED <<act, todo>>
           ELSE /\ pc' = pc
                /\ IF todo <= Len(labels)
                   THEN act' = AddNew(act, labels[todo]) /\ todo' = todo + 1
                   ELSE \E n \in Neurons : act' = AddNew(act, n) /\ todo' = todo
        /\ UNCHANGED <<const, in>>
Stop == (pc = "done" \/ (mode = "random" /\ ~shape.softmax)) /\ UNCHANGED mvars
Next == Collect \/ Fill \/ Pick \/ Draw \/ Stop
Spec == Init /\ [][Next]_mvars
Explained == pc = "done" =>
    CASE mode = "sampling" -> SamplingOK(labels, buckets, act, in)
      [] mode = "threshold" -> ThresholdOK(labels, buckets, act, in)
      [] mode = "random" -> RandomOK(labels, Sparse, 4, act)
\* and consequences a user relies on
LabelsIn == pc = "done" /\ mode # "random" => SetOf(Lab) \subseteq SetOf(act)
=============================================================================
