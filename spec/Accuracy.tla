------------------------------- MODULE Accuracy -----------------------------
(* The accuracies the program reports while it evaluates. phase: "idle" (no  *)
(* evaluation), "batch" (one has just been evaluated), "open" (the running   *)
(* accuracy has been given), "reported" (its overall accuracy has been       *)
(* given), "final" (and its closing report).                                 *)
(* Accuracies are in millionths.                                             *)
EXTENDS Integers
VARIABLES phase, correct, total
avars == <<phase, correct, total>>
AInit == phase = "idle" /\ correct = 0 /\ total = 0
Batch(n, right) ==
    /\ (right \in 0..n) = TRUE
    /\ (phase \in {"idle", "open", "final"}) = TRUE
    /\ phase' = "batch"
    /\ IF phase = "open" THEN correct' = correct + right /\ total' = total + n
                         ELSE correct' = right /\ total' = n
\* training, a new epoch, the end: whatever was being evaluated is over, and
\* its accuracy has been told, unless the program had to stop
Else(stop) == /\ (phase \in {"idle", "final"} \/ stop) = TRUE
              /\ phase' = "idle" /\ correct' = 0 /\ total' = 0
\* (rounded or cut; long division, as c * 1000000 may be too large for TLC)
RECURSIVE Digits(_, _, _)
Digits(c, t, n) == IF n = 0 THEN 0 ELSE ((10 * c) \div t) * 10^(n - 1) + Digits((10 * c) % t, t, n - 1)
Millionths(c, t) == IF c >= t THEN 1000000 * (c \div t) + Digits(c % t, t, 6) ELSE Digits(c, t, 6)
Accurate(x, c, t) == t = 0 \/ x - Millionths(c, t) \in 0..1
Running(x) ==
    IF phase \in {"batch", "open"}
    THEN (Accurate(x, correct, total) = TRUE) /\ phase' = "open" /\ UNCHANGED <<correct, total>>
    ELSE phase' = "open" /\ correct' = 0 /\ total' = 0     \* nothing to evaluate so far
Overall(x) ==
    /\ (phase # "batch") = TRUE
    /\ IF phase = "open" THEN (Accurate(x, correct, total) = TRUE) /\ phase' = "reported" /\ UNCHANGED <<correct, total>>
       ELSE phase' = "reported" /\ correct' = 0 /\ total' = 0
Final(x) == /\ phase = "reported" /\ (Accurate(x, correct, total) = TRUE)
            /\ phase' = "final" /\ UNCHANGED <<correct, total>>
=============================================================================
