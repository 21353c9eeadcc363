-------------------------------- MODULE Ring --------------------------------
(* Pure operators on bounded rings of ids, shared by the bucket, LSH-table   *)
(* and table-synchronisation specifications.                                 *)
EXTENDS Naturals, Sequences

NewRing == [slots |-> <<>>, n |-> 0]

\* Slot (counted from 0) which the next insertion takes.
NextSlot(r, size) == r.n % size

RingAdd(r, id, size) ==
    [slots |-> IF Len(r.slots) < size
               THEN Append(r.slots, id)
               ELSE [r.slots EXCEPT ![NextSlot(r, size) + 1] = id],
     n |-> r.n + 1]

\* What the read of one slot (from 0) answers.
RingRead(r, i, size) ==
    IF i >= size THEN 0 - 1
    ELSE IF i >= Len(r.slots) THEN 0 ELSE r.slots[i + 1]

\* The declarative meaning: the ring as a function of the ids inserted since
\* the last reset, newest last.
RingOf(hist, size) ==
    LET n == Len(hist)
        m == IF n < size THEN n ELSE size
        \* last ordinal k <= n with (k - 1) % size = j - 1
        Last(j) == CHOOSE k \in 1..n :
                      /\ (k - 1) % size = j - 1
                      /\ k + size > n
    IN [slots |-> [j \in 1..m |-> hist[Last(j)]], n |-> n]
=============================================================================
