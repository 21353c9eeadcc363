----------------------------- MODULE Projection -----------------------------
(* Sparse random projection: code 0 iff a fixed signed sum of a fixed subset *)
(* of the coordinates is not negative. Signs are learned from calls on       *)
(* (positive multiples of) unit vectors, and must explain every later call.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES shape,   \* [dim, ratio, nh]
          coef,    \* per code: -1, 0 or 1 for each coordinate learned so far
          drawn    \* the projections of earlier hashers
vars == <<shape, coef, drawn>>
Codes == 1..shape.nh
InitWith(s) == shape = s /\ coef = [i \in 1..s.nh |-> <<>>] /\ drawn = {}
\* another hasher of the same shape
Renew == coef' = [i \in Codes |-> <<>>] /\ UNCHANGED <<shape, drawn>>

\* answers for +e_d and for -e_d
Learn(d, a, b) ==
    /\ DOMAIN a = Codes /\ DOMAIN b = Codes
    /\ \A i \in Codes : <<a[i], b[i]>> \in {<<0, 0>>, <<0, 1>>, <<1, 0>>}
    /\ \A i \in Codes : d = Len(coef[i])
    /\ coef' = [i \in Codes |-> Append(coef[i], b[i] - a[i])]
    /\ UNCHANGED <<shape, drawn>>
SampleSize == (shape.dim + shape.ratio - 1) \div shape.ratio
Formed ==
    /\ \A i \in Codes : /\ Len(coef[i]) = shape.dim
                        /\ Cardinality({d \in 1..shape.dim : coef[i][d] # 0}) = SampleSize
    /\ UNCHANGED vars
\* Subsets and signs are drawn independently for every code: no two codes, of
\* one hasher or of two, share 15/16 of their subsets (when those are at most
\* half of the coordinates), none takes 15/16 of its subset from one end, and
\* signs agree on more than 1/16 and less than 15/16 of the coordinates, and of
\* the places, of any two; nor are they 15/16 alike or alternating within one.
\* (For subsets of 96 coordinates chance breaks this once in 10^19.)
Enough == 96
Alternating(n) == [k \in 1..n |-> IF k % 2 = 0 THEN 1 ELSE 0 - 1]
Signs(c) == SelectSeq(c, LAMBDA x : x # 0)
Products(c, d) == TLCEval([k \in 1..Len(c) |-> c[k] * d[k]])
Count(s, x) == FoldSeq(LAMBDA e, sum : IF e = x THEN sum + 1 ELSE sum, 0, s)
Mixed(s) == LET up == Count(s, 1)  down == Count(s, 0 - 1)
            IN up + down >= Enough => 16 * up > up + down /\ 16 * down > up + down
Shared(c, d) == LET s == Products(c, d) IN Count(s, 1) + Count(s, 0 - 1)
Free(n) == SampleSize >= Enough /\ 2 * SampleSize <= n
Start(n) == [k \in 1..n |-> IF k <= SampleSize THEN 1 ELSE 0]
End(n) == [k \in 1..n |-> IF k > n - SampleSize THEN 1 ELSE 0]
Apart(c, d) ==
    /\ Mixed(Products(c, d)) /\ Mixed(Products(Signs(c), Signs(d)))
    /\ Free(Len(c)) => 16 * Shared(c, d) < 15 * SampleSize
Lone(c) ==
    /\ Mixed(c) /\ Mixed(Products(Signs(c), Alternating(SampleSize)))
    /\ Mixed(Products(c, Alternating(Len(c))))
    /\ Free(Len(c)) => /\ 16 * Shared(c, Start(Len(c))) < 15 * SampleSize
                       /\ 16 * Shared(c, End(Len(c))) < 15 * SampleSize
Varied ==
    /\ \A i \in Codes : /\ Lone(coef[i]) = TRUE
                        /\ \A j \in Codes : j < i => Apart(coef[i], coef[j]) = TRUE
                        /\ \A d \in drawn : Apart(coef[i], d) = TRUE
    /\ drawn' = drawn \cup {coef[i] : i \in Codes}
    /\ UNCHANGED <<shape, coef>>
Sum(c, pairs) == FoldSeq(LAMBDA e, sum : sum + c[e[1] + 1] * e[2], 0, pairs)
Sign(c, pairs) == IF Sum(c, pairs) >= 0 THEN 0 ELSE 1
Hash(pairs, codes) ==
    /\ DOMAIN codes = Codes
    /\ LET p == TLCEval(pairs) IN \A i \in Codes : codes[i] = Sign(coef[i], p)
    /\ UNCHANGED vars
Sparse(pairs, codes) == Hash(pairs, codes)
Dense(v, codes) == Len(v) = shape.dim /\ Hash([k \in 1..Len(v) |-> <<k - 1, v[k]>>], codes)
=============================================================================
