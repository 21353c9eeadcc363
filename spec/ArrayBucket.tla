---------------------------- MODULE ArrayBucket -----------------------------
(* The fixed-array bucket. Listing a partly filled bucket stores the -1      *)
(* terminator in the first free slot, where reads may meet it later: `mark'  *)
(* says whether the terminator is there.                                     *)
EXTENDS Ring, Integers
CONSTANTS Size, Ids, HistMax
VARIABLES ring, mark, hist
vars == <<ring, mark, hist>>

Init == ring = NewRing /\ mark = FALSE /\ hist = <<>>

Add(id, slot) ==
    /\ slot = NextSlot(ring, Size)
    /\ ring' = RingAdd(ring, id, Size)
    /\ mark' = FALSE
    /\ hist' = IF HistMax > 0 THEN Append(hist, id) ELSE hist
Reset == ring' = NewRing /\ mark' = FALSE /\ hist' = <<>>

Listing == [j \in 1..Size |->
              IF j <= Len(ring.slots) THEN ring.slots[j]
              ELSE IF j = Len(ring.slots) + 1 THEN 0 - 1 ELSE 0]
List(ans) ==
    /\ ans = IF ring.n = 0 THEN <<>> ELSE Listing
    /\ mark' = (ring.n > 0 /\ ring.n < Size)
    /\ UNCHANGED <<ring, hist>>

\* The slot after the last id may answer 0 or the terminator: the property
\* does not say which; every other answer is determined.
ReadAnswers(i) ==
    IF i = Len(ring.slots) /\ i < Size THEN {0, 0 - 1} ELSE {RingRead(ring, i, Size)}
Read(i, ans) == ans \in ReadAnswers(i) /\ UNCHANGED vars
SizeOf(ans) == ans = ring.n /\ UNCHANGED vars

Next == \/ \E id \in Ids, s \in 0..(Size - 1) : Add(id, s)
        \/ Reset
        \/ List(IF ring.n = 0 THEN <<>> ELSE Listing)
        \/ \E i \in 0..Size, a \in {0, 0 - 1} \cup Ids : Read(i, a)
        \/ SizeOf(ring.n)
Spec == Init /\ [][Next]_vars

Bound == Len(hist) < HistMax
IsWindow == ring = RingOf(hist, Size)
MarkOK == mark => (ring.n > 0 /\ ring.n < Size)
\* A listing shows exactly the ids, one terminator if there is room, and
\* nothing of any earlier content.
ListingOK == ring.n > 0 =>
    /\ \A j \in 1..Len(ring.slots) : Listing[j] = RingOf(hist, Size).slots[j]
    /\ ring.n < Size => /\ Listing[ring.n + 1] = 0 - 1
                        /\ \A j \in (ring.n + 2)..Size : Listing[j] = 0
=============================================================================
