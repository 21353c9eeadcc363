----------------------------- MODULE Addressing -----------------------------
(* Bucket addressing of L tables of K codes each. What matters about the     *)
(* index computation: it is a function of the table and of that table's own  *)
(* codes, it stays in range, and for the positional families ("wta", "srp")  *)
(* it is injective. `seen' is the part of that function revealed so far.     *)
(* Indices are written as base-2^16 digits (least significant first), since  *)
(* 8^K exceeds the model checker's integers. Codes are opaque values.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES shape,    \* [k, l, family, bits]: indices must be below 2^bits
          seen      \* per table: own codes -> index
vars == <<shape, seen>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Injective(f) == f \in {"wta", "dwta", "srp"}
\* digits d denote a number below 2^bits
Below(d, bits) == \A p \in 1..Len(d) :
    LET room == IF bits <= 16 * (p - 1) THEN 0 ELSE bits - 16 * (p - 1)
    IN /\ d[p] \in Nat /\ d[p] < 65536
       /\ room < 16 => d[p] < Pow2(room)

\* addressing alters neither the codes nor the indices it answered earlier
Untouched(kept) == kept
Own(codes, t) == SubSeq(codes, (t - 1) * shape.k + 1, t * shape.k)

InitWith(s) == shape = s /\ seen = [t \in 1..s.l |-> <<>>]

\* One call: the codes of all tables, and the answer.
Index(codes, ans) ==
    /\ Len(codes) = shape.k * shape.l
    /\ DOMAIN ans = 1..shape.l                      \* one index per table
    /\ \A t \in 1..shape.l :
        LET own == Own(codes, t) IN
        /\ Below(ans[t], shape.bits)
        /\ IF own \in DOMAIN seen[t]
           THEN seen[t][own] = ans[t]
           ELSE Injective(shape.family) =>
                \A o \in DOMAIN seen[t] : seen[t][o] # ans[t]
    /\ seen' = [t \in 1..shape.l |-> (Own(codes, t) :> ans[t]) @@ seen[t]]
    /\ UNCHANGED shape

\* The other family cannot be injective, yet every code counts, in its own
\* place: tuples that differ in one or two codes are rarely addressed alike
\* (asked where chance makes that one pair in hundreds; see the harness).
Alike(t) == {p \in (DOMAIN seen[t]) \X (DOMAIN seen[t]) : p[1] # p[2] /\ seen[t][p[1]] = seen[t][p[2]]}
Pairs(t) == Cardinality(DOMAIN seen[t]) * (Cardinality(DOMAIN seen[t]) - 1)
RECURSIVE Total(_, _)
Total(f, t) == IF t = 0 THEN 0 ELSE f[t] + Total(f, t - 1)
\* (and no bit of the addresses lies idle)
Bit(d, b) == (d[b \div 16 + 1] \div Pow2(b % 16)) % 2
BitVaries(b) == \E t \in 1..shape.l : \E o, p \in DOMAIN seen[t] :
    Bit(seen[t][o], b) # Bit(seen[t][p], b)
Spread ==
    LET alike == [t \in 1..shape.l |-> Cardinality(Alike(t))]
        pairs == [t \in 1..shape.l |-> Pairs(t)]
    IN /\ \A b \in 0..(shape.bits - 1) : BitVaries(b)
       /\ 4 * Total(alike, shape.l) <= Total(pairs, shape.l)

\* ---- model checking: the positional encoding is one implementation
CONSTANTS Base
RECURSIVE Encode(_)
Encode(own) == IF own = <<>> THEN 0
               ELSE Encode(SubSeq(own, 1, Len(own) - 1)) * Base + own[Len(own)]
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
Init == \E k \in 1..2, l \in 1..2 :
          InitWith([k |-> k, l |-> l, family |-> "wta", bits |-> k * Log2(Base)])
AnswerOf(codes) == [t \in 1..shape.l |-> <<Encode(Own(codes, t))>>]
Next == \E codes \in [1..(shape.k * shape.l) -> 0..(Base - 1)] :
          Index(codes, AnswerOf(codes))
\* ... which never gets stuck: whatever was seen, every call is allowed.
NeverStuck == \A codes \in [1..(shape.k * shape.l) -> 0..(Base - 1)] :
    \A t \in 1..shape.l :
        /\ Below(AnswerOf(codes)[t], shape.bits)
        /\ IF Own(codes, t) \in DOMAIN seen[t]
           THEN seen[t][Own(codes, t)] = AnswerOf(codes)[t]
           ELSE \A o \in DOMAIN seen[t] : seen[t][o] # AnswerOf(codes)[t]
\* The property itself.
InjectivePerTable == \A t \in 1..shape.l : \A a, b \in DOMAIN seen[t] :
    (a # b) => seen[t][a] # seen[t][b]
\* ... and what is injective is spread.
SpreadToo == Cardinality(DOMAIN seen[1]) > 3 => Spread
Depth == \A t \in 1..shape.l : Cardinality(DOMAIN seen[t]) <= 4
Spec == Init /\ [][Next]_vars
=============================================================================
