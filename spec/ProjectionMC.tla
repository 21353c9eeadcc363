---------------------------- MODULE ProjectionMC ----------------------------
(* Whatever the hidden signed subset is, learning recovers it exactly and    *)
(* what was learned explains every answer.                                   *)
EXTENDS Projection
CONSTANTS N, R
VARIABLES hid, d
mvars == <<vars, hid, d>>
Size == (N + R - 1) \div R
Init == /\ InitWith([dim |-> N, ratio |-> R, nh |-> 1])
        /\ hid \in {h \in [1..N -> {0 - 1, 0, 1}] :
                      Cardinality({c \in 1..N : h[c] # 0}) = Size}
        /\ d = 0
Unit(x, s) == <<Sign(hid, <<<<x, s>>>>)>>
Next == \/ d < N /\ Learn(d, Unit(d, 1), Unit(d, 0 - 1)) /\ d' = d + 1 /\ UNCHANGED hid
        \/ d = N /\ Formed /\ d' = N + 1 /\ UNCHANGED hid
        \/ d = N + 1 /\ UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
Recovered == \A x \in 1..Len(coef[1]) : coef[1][x] = hid[x]
Pairs(v) == [k \in 1..N |-> <<k - 1, v[k]>>]
Explains == d = N + 1 => \A v \in [1..N -> {0 - 1, 0, 2}] :
    /\ Sign(coef[1], Pairs(v)) = Sign(hid, Pairs(v))
    \* left-out zeros and entries outside the subset do not matter
    /\ Sign(coef[1], SelectSeq(Pairs(v), LAMBDA e : e[2] # 0)) = Sign(hid, Pairs(v))
    /\ Sign(coef[1], SelectSeq(Pairs(v), LAMBDA e : hid[e[1] + 1] # 0)) = Sign(hid, Pairs(v))
=============================================================================
