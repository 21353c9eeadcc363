-------------------------------- MODULE Wta ---------------------------------
(* Winner-take-all hashing, plain and densified. The hidden windows of a     *)
(* hasher are learned from calls (Learn), must then be well-formed (Formed), *)
(* and must explain every later call (Dense, Sparse).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Bin              \* slots per window
VARIABLES shape,           \* [n, nh, kind, probes]: coordinates, windows
          win,             \* per window: slot -> coordinate, as learned
          drawn            \* the permutations seen: sequences of coordinates
vars == <<shape, win, drawn>>

Windows == 1..shape.nh
Slots == 0..(Bin - 1)
Coords == 0..(shape.n - 1)
InitWith(s) == shape = s /\ win = [i \in 1..s.nh |-> <<>>] /\ drawn = {}
\* another hasher of the same shape
Renew(probes) ==
    /\ shape' = [shape EXCEPT !.probes = probes]
    /\ win' = [i \in Windows |-> <<>>]
    /\ UNCHANGED drawn

\* Coordinate d was made the largest, over the other values in one order
\* (answer a) and in the opposite order (answer b): the windows that hold d
\* are those that answer the same, and the answer is its slot.
Learn(d, a, b) ==
    /\ DOMAIN a = Windows /\ DOMAIN b = Windows
    /\ \A i \in Windows :
         /\ a[i] \in Slots /\ b[i] \in Slots
         /\ a[i] = b[i] => a[i] \notin DOMAIN win[i]
    /\ win' = [i \in Windows |-> IF a[i] = b[i] THEN (a[i] :> d) @@ win[i] ELSE win[i]]
    /\ UNCHANGED <<shape, drawn>>

\* Global slot numbers, counted through all windows; block p is the p-th
\* permutation.
GSlot(i, s) == (i - 1) * Bin + s
Block(i, s) == GSlot(i, s) \div shape.n
Blocks == 0..((shape.nh * Bin - 1) \div shape.n)
Complete(p) == (p + 1) * shape.n <= shape.nh * Bin
Cells == {<<i, s>> : i \in Windows, s \in Slots}
Known(c) == c[2] \in DOMAIN win[c[1]]
\* The cells of block p are consecutive global slots.
InBlock(p) == {<<(g \div Bin) + 1, g % Bin>> :
                 g \in (p * shape.n)..(IF Complete(p) THEN (p + 1) * shape.n - 1
                                       ELSE shape.nh * Bin - 1)}
KnownIn(p) == {c \in InBlock(p) : Known(c)}
\* A slot stays unknown only where its window holds the same coordinate
\* twice, from two permutations.
Twice(p, d) == \E c \in InBlock(p) : /\ ~Known(c)
                                     /\ \E s \in DOMAIN win[c[1]] : win[c[1]][s] = d
WindowsFormed ==
    /\ \A p \in Blocks :
        LET known == TLCEval(KnownIn(p))
            seen == TLCEval({win[c[1]][c[2]] : c \in known})
        IN /\ Cardinality(seen) = Cardinality(known)
           /\ Complete(p) => \A d \in Coords \ seen : Twice(p, d)
    /\ \A c \in Cells : Known(c) \/ \E s \in DOMAIN win[c[1]] :
                          Block(c[1], s) # Block(c[1], c[2])
    /\ \A i \in Windows : DOMAIN win[i] # {}
\* (compared with TRUE, so that TLC evaluates it rather than branching on it)
Formed == (WindowsFormed = TRUE) /\ UNCHANGED vars

\* The permutations are drawn independently: no complete one has a quarter of
\* its coordinates where the identity, another permutation of the hasher, or
\* one of an earlier hasher has them, not even after a rotation. (For 72
\* coordinates or more, chance does that less than once in 10^13.)
Enough == 72
Unknown == 0 - 1
Slice(p) == TLCEval([k \in 1..shape.n |->
    LET g == p * shape.n + k - 1
        i == (g \div Bin) + 1
        s == g % Bin
    IN IF s \in DOMAIN win[i] THEN win[i][s] ELSE Unknown])
Place(q) == TLCEval([d \in Coords |->
    IF \E k \in 1..Len(q) : q[k] = d THEN CHOOSE k \in 1..Len(q) : q[k] = d ELSE 0])
\* how many coordinates are as far apart in both
Shifts(q, r) ==
    LET place == Place(r)
        at == TLCEval([k \in 1..Len(q) |->
                 IF q[k] = Unknown \/ place[q[k]] = 0 THEN Unknown
                 ELSE (k - place[q[k]] + shape.n) % shape.n])
    IN FoldSeq(LAMBDA x, f : IF x = Unknown THEN f ELSE [f EXCEPT ![x] = @ + 1],
               [x \in Coords |-> 0], at)
Unrelated(q, r) == LET f == TLCEval(Shifts(q, r)) IN \A x \in Coords : 4 * f[x] < shape.n
Identity == [k \in 1..shape.n |-> k - 1]
Varied ==
    LET full == TLCEval([p \in {b \in Blocks : Complete(b)} |-> Slice(p)]) IN
    /\ drawn' = drawn \cup {full[p] : p \in DOMAIN full}
    /\ shape.n >= Enough => \A p \in DOMAIN full :
          /\ Unrelated(full[p], Identity) = TRUE
          /\ \A q \in DOMAIN full : q < p => Unrelated(full[p], full[q]) = TRUE
          /\ \A r \in drawn : Unrelated(full[p], r) = TRUE
    /\ UNCHANGED <<shape, win>>

\* Winning slots of a window for values on a support (coordinate -> value).
Listed(i, val) == {s \in DOMAIN win[i] : win[i][s] \in DOMAIN val}
Winners(i, val) ==
    LET in == TLCEval(Listed(i, val)) IN
    {s \in in : \A u \in in : val[win[i][s]] >= val[win[i][u]]}
      \cup (Slots \ DOMAIN win[i])
NonEmpty(val) == {i \in Windows : Listed(i, val) # {}}
RECURSIVE FirstHit(_, _, _)
FirstHit(P, c, ne) == IF c > Len(P) THEN 0
                      ELSE IF (P[c] + 1) \in ne THEN c ELSE FirstHit(P, c + 1, ne)
\* What window i may answer; ne are the non-empty windows. Probes count
\* windows from 0.
AnswersIn(i, val, ne) ==
    IF i \in ne THEN Winners(i, val)
    ELSE LET P == shape.probes[i]
             first == FirstHit(P, 1, ne)
         IN IF first = 0 THEN {0} ELSE Winners(P[first] + 1, val)
Answers(i, val) == AnswersIn(i, val, NonEmpty(val))
Explained(val, codes) ==
    /\ DOMAIN codes = Windows
    /\ LET ne == TLCEval(NonEmpty(val)) IN
       \A i \in Windows : codes[i] \in Slots /\ codes[i] \in AnswersIn(i, val, ne)
ProbesOK == shape.kind = "dwta" =>
    /\ DOMAIN shape.probes = Windows
    /\ \A i \in Windows : \A c \in DOMAIN shape.probes[i] :
          shape.probes[i][c] \in 0..(shape.nh - 1)

Dense(v, codes) ==
    /\ Len(v) = shape.n
    /\ LET val == TLCEval([d \in Coords |-> v[d + 1]]) IN Explained(val, codes) = TRUE
    /\ UNCHANGED vars
\* Sparse form: absent coordinates count as zero (plain) or not at all
\* (densified). Entries are <<coordinate, value>>.
SparseVal(pairs) ==
    LET sup == TLCEval({pairs[k][1] : k \in 1..Len(pairs)})
        at(d) == pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = d][2]
    IN IF shape.kind = "wta" THEN [d \in Coords |-> IF d \in sup THEN at(d) ELSE 0]
       ELSE [d \in sup |-> at(d)]
Sparse(pairs, codes) ==
    /\ LET val == TLCEval(SparseVal(pairs)) IN Explained(val, codes) = TRUE
    /\ UNCHANGED vars
=============================================================================
