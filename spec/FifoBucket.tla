----------------------------- MODULE FifoBucket -----------------------------
(* A bucket: the last Size ids inserted since the last reset, in ring order. *)
(* `ring' is the implementation-shaped state, `hist' the history it must be  *)
(* a function of (kept only where HistMax > 0).                              *)
EXTENDS Ring, Integers
CONSTANTS Size, Ids, HistMax
VARIABLES ring, hist
vars == <<ring, hist>>

Init == ring = NewRing /\ hist = <<>>

Add(id, slot) ==
    /\ slot = NextSlot(ring, Size)
    /\ ring' = RingAdd(ring, id, Size)
    /\ hist' = IF HistMax > 0 THEN Append(hist, id) ELSE hist

Reset == ring' = NewRing /\ hist' = <<>>

\* Reads: the answer is determined and nothing changes.
Read(i, ans) == ans = RingRead(ring, i, Size) /\ UNCHANGED vars
List(ans) == ans = ring.slots /\ UNCHANGED vars

Next == \/ \E id \in Ids, s \in 0..(Size - 1) : Add(id, s)
        \/ Reset
        \/ \E i \in 0..Size : Read(i, RingRead(ring, i, Size))
        \/ List(ring.slots)
Spec == Init /\ [][Next]_vars

Bound == Len(hist) < HistMax
TypeOK == Len(ring.slots) <= Size /\ ring.n >= Len(ring.slots)
\* The property: the content is exactly the window of the history.
IsWindow == ring = RingOf(hist, Size)
ReadsAgree == \A i \in 0..(Size + 1) :
    RingRead(ring, i, Size) = IF i >= Size THEN 0 - 1
                              ELSE IF i < Len(ring.slots) THEN ring.slots[i + 1] ELSE 0
\* An insertion changes one slot only.
OneSlot == [][\A j \in 1..Len(ring.slots) :
                 (Len(ring'.slots) >= j /\ ring'.slots[j] # ring.slots[j] /\ ring'.n = ring.n + 1)
                    => j = NextSlot(ring, Size) + 1]_vars
=============================================================================
