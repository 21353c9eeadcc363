------------------------------ MODULE Minhash -------------------------------
(* Densified min-hash: the code of a bin is the largest coordinate, among    *)
(* the top-k by value, mapped to that bin; an empty bin borrows from the     *)
(* first non-empty bin of its probing sequence.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES shape,   \* [nh, probes]
          maps     \* dimension -> bin map, as answered so far
vars == <<shape, maps>>

Bins == 1..shape.nh
NoCode == 0 - 2
InitWith(s) == shape = s /\ maps = <<>>

ValidMap(m) == \A i \in DOMAIN m : m[i] \in 0..(shape.nh - 1)
\* the map for n coordinates: valid, and the same whenever asked
GetMap(n, m) ==
    /\ Len(m) = n /\ ValidMap(m)
    /\ n \in DOMAIN maps => maps[n] = m
    /\ maps' = (n :> m) @@ maps
    /\ UNCHANGED shape

ProbesOK == DOMAIN shape.probes = Bins /\
    \A i \in Bins : \A c \in DOMAIN shape.probes[i] : shape.probes[i][c] \in 0..(shape.nh - 1)

\* the k entries of largest value (all, for k = 0 or few entries)
Above(pairs, x) == {k \in 1..Len(pairs) : pairs[k][2] > x[2]}
Top(pairs, k) ==
    {pairs[j][1] : j \in {j \in 1..Len(pairs) :
        k = 0 \/ Cardinality(Above(pairs, pairs[j])) < k}}
\* the same, for long vectors: those not below the k-th largest value
RECURSIVE Kth(_, _)
Kth(s, k) == LET above == TLCEval(SelectSeq(s, LAMBDA x : x > s[1]))
                 below == TLCEval(SelectSeq(s, LAMBDA x : x < s[1]))
             IN IF k <= Len(above) THEN Kth(above, k)
                ELSE IF k = Len(above) + 1 THEN s[1]
                ELSE Kth(below, k - Len(above) - 1)
TopByValue(pairs, k) ==
    IF k = 0 \/ Len(pairs) <= k THEN {pairs[j][1] : j \in 1..Len(pairs)}
    ELSE LET least == TLCEval(Kth([j \in 1..Len(pairs) |-> pairs[j][2]], k))
         IN {pairs[j][1] : j \in {j \in 1..Len(pairs) : pairs[j][2] >= least}}
Members(i, m, top) == {x \in top : m[x + 1] = i - 1}
NonEmpty(m, top) == {m[x + 1] + 1 : x \in top}
RECURSIVE FirstHit(_, _, _)
FirstHit(P, c, ne) == IF c > Len(P) THEN 0
                      ELSE IF (P[c] + 1) \in ne THEN c ELSE FirstHit(P, c + 1, ne)
\* answers allowed for bin i (NoCode: 100 probes found nothing; unspecified)
CodeIn(i, m, top, ne) ==
    IF i \in ne THEN Max(Members(i, m, top))
    ELSE LET P == shape.probes[i]
             first == FirstHit(P, 1, ne)
         IN IF first = 0 THEN NoCode ELSE Max(Members(P[first] + 1, m, top))
Code(i, m, top) == CodeIn(i, m, top, NonEmpty(m, top))
RECURSIVE FirstSet(_, _, _)
FirstSet(P, c, best) == IF c > Len(P) THEN 0
                        ELSE IF best[P[c] + 1] # NoCode THEN c ELSE FirstSet(P, c + 1, best)
\* the same for all bins at once: the largest top coordinate of every bin
Largest(m, top) ==
    FoldSeq(LAMBDA x, f : [f EXCEPT ![m[x + 1] + 1] = IF @ >= x THEN @ ELSE x],
            [i \in Bins |-> NoCode], SetToSeq(top))
CodeAt(i, best) ==
    IF best[i] # NoCode THEN best[i]
    ELSE LET first == FirstSet(shape.probes[i], 1, best)
         IN IF first = 0 THEN NoCode ELSE best[shape.probes[i][first] + 1]
Hash(pairs, k, m, codes) ==
    /\ ValidMap(m) /\ DOMAIN codes = Bins
    /\ LET top == TLCEval(TopByValue(pairs, k))
           best == TLCEval(Largest(m, top))
       IN \A i \in Bins : CodeAt(i, best) \in {NoCode, codes[i]}
    /\ UNCHANGED vars
=============================================================================
