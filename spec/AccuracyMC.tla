------------------------------ MODULE AccuracyMC ----------------------------
(* With the batches of the evaluation in a ghost: no report differs from the *)
(* fraction of its examples that were right by more than a millionth.        *)
EXTENDS Accuracy, Sequences
CONSTANTS MaxBatches
VARIABLES ran, last     \* batches of this evaluation; last accuracy reported (-1: none)
RECURSIVE Sum(_, _)
Sum(s, part) == IF s = <<>> THEN 0 ELSE Head(s)[part] + Sum(Tail(s), part)
Xs == {0, 200000, 250000, 333333, 400000, 500000, 600000, 666666, 666667, 750000, 800000, 1000000}
Init == AInit /\ ran = <<>> /\ last = -1
Next ==
    \/ \E n \in 0..2, right \in 0..2 :
          /\ Len(ran) < MaxBatches \/ phase # "open"
          /\ Batch(n, right) /\ last' = -1
          /\ ran' = IF phase = "open" THEN Append(ran, <<n, right>>) ELSE <<<<n, right>>>>
    \/ \E stop \in BOOLEAN : Else(stop) /\ ran' = <<>> /\ last' = -1
    \/ \E x \in Xs : /\ (Running(x) \/ Overall(x) \/ Final(x))
                     /\ last' = x
                     /\ ran' = IF total' = 0 THEN <<>> ELSE ran
Spec == Init /\ [][Next]_<<phase, correct, total, ran, last>>
N == Sum(ran, 1)
C == Sum(ran, 2)
Kept == phase # "idle" => total = N /\ correct = C
Right == last # -1 /\ total > 0 => (last * N - C * 1000000) \in (-N)..N
=============================================================================
