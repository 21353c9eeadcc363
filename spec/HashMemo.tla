------------------------------ MODULE HashMemo ------------------------------
(* A hasher is a function of the vector, not of how the vector is written    *)
(* down. `memo' is the part of the function revealed so far, keyed by the    *)
(* canonical form of the vector; a call on a vector already seen, written in *)
(* any way, must answer the same codes.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES shape,   \* [family, dim, nh]
          memo
vars == <<shape, memo>>

\* Families whose sparse form means "all other coordinates are zero".
ZeroFill(f) == f \in {"wta", "srp"}
Support(pairs) == {pairs[k][1] : k \in 1..Len(pairs)}
WellFormed(pairs) == Cardinality(Support(pairs)) = Len(pairs)
                     /\ Support(pairs) \subseteq 0..(shape.dim - 1)
\* Canonical form: the entries as a set, without those that say what leaving
\* them out would say.
Telling(pairs) == IF ZeroFill(shape.family) THEN SelectSeq(pairs, LAMBDA x : x[2] # 0)
                  ELSE pairs
Canon(kind, pairs) == <<kind, TLCEval(ToSet(Telling(pairs)))>>
AsPairs(dense) == [k \in 1..Len(dense) |-> <<k - 1, dense[k]>>]

\* hashing alters neither the vector nor the codes it answered earlier
Untouched(kept) == kept
InitWith(s) == shape = s /\ memo = <<>>

Remember(key, codes) ==
    /\ Len(codes) = shape.nh
    /\ key \in DOMAIN memo => memo[key] = codes
    /\ memo' = (key :> codes) @@ memo
    /\ UNCHANGED shape
\* `kind' tells apart different summaries of a vector (top-k for several k).
HashSparse(kind, pairs, codes) == WellFormed(pairs) /\ Remember(Canon(kind, pairs), codes)
HashDense(kind, vec, codes) ==
    Len(vec) = shape.dim /\ Remember(Canon(kind, AsPairs(vec)), codes)

\* ---- model checking: a hasher given by any function of the canonical form
\* explains every way of writing a vector down.
CONSTANTS Dim, Vals
MCVals == {-1, 0, 2}
VecPairs(v, p) == [k \in 1..Dim |-> <<p[k] - 1, v[p[k]]>>]
Perms == {p \in [1..Dim -> 1..Dim] : \A a, b \in 1..Dim : a # b => p[a] # p[b]}
Drop(pairs) == SelectSeq(pairs, LAMBDA x : x[2] # 0)
Init == \E f \in {"wta", "dwta"} : InitWith([family |-> f, dim |-> Dim, nh |-> 1])
\* a code that depends on the canonical form: position of the first maximum
Code(key) == LET v == key[2] IN
    IF v = {} THEN <<0>>
    ELSE <<(CHOOSE x \in v : \A y \in v : x[2] > y[2] \/ (x[2] = y[2] /\ x[1] <= y[1]))[1]>>
Next == \E v \in [1..Dim -> Vals] :
    \/ HashDense("d", v, Code(Canon("d", AsPairs(v))))
    \/ \E p \in Perms : HashSparse("d", VecPairs(v, p), Code(Canon("d", VecPairs(v, p))))
    \/ \E p \in Perms : /\ shape.family = "wta"
                        /\ HashSparse("d", Drop(VecPairs(v, p)), Code(Canon("d", AsPairs(v))))
Few == Cardinality(DOMAIN memo) <= 1
Spec == Init /\ [][Next]_vars
\* every spelling of a vector has the same canonical form
SameForm == (memo = <<>>) => \A v \in [1..Dim -> Vals], p \in Perms :
    /\ Canon("d", VecPairs(v, p)) = Canon("d", AsPairs(v))
    /\ ZeroFill(shape.family) => Canon("d", Drop(VecPairs(v, p))) = Canon("d", AsPairs(v))
Function == \A key \in DOMAIN memo : memo[key] = Code(key)
=============================================================================
