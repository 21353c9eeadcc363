----------------------------- MODULE LshTables ------------------------------
(* L tables of buckets; every bucket is a ring that depends only on the      *)
(* insertions addressed to it since the last clear. `log' records them (only *)
(* where LogMax > 0). Tables and indices count from 0, as in the API; empty  *)
(* buckets are left out of `tab', which keeps states small. A clone of the    *)
(* tables starts as they are and is on its own from then on; `other' are the *)
(* tables not worked on at the moment.                                       *)
EXTENDS Ring, Integers, TLC
CONSTANTS Size, LogMax
VARIABLES nt, nb, tab, log,     \* nt tables of nb buckets
          other                 \* the tab and log of the other copy, if any
vars == <<nt, nb, tab, log, other>>

Tables == 0..(nt - 1)
Buckets == 0..(nb - 1)
At(t, b) == IF <<t, b>> \in DOMAIN tab THEN tab[<<t, b>>] ELSE NewRing
Valid(ix) == DOMAIN ix = 1..nt /\ \A t \in 1..nt : ix[t] \in Buckets

InitWith(l, b) == nt = l /\ nb = b /\ tab = <<>> /\ log = <<>> /\ other = <<>>

Add(ix, id, slots) ==
    /\ Valid(ix)
    /\ slots = [t \in 1..nt |-> NextSlot(At(t - 1, ix[t]), Size)]
    /\ tab' = [k \in {<<t - 1, ix[t]>> : t \in 1..nt} |-> RingAdd(At(k[1], k[2]), id, Size)] @@ tab
    /\ log' = IF LogMax > 0 THEN Append(log, [ix |-> ix, id |-> id]) ELSE log
    /\ UNCHANGED <<nt, nb, other>>

AddSingle(t, b, id, slot) ==
    /\ t \in Tables /\ b \in Buckets
    /\ slot = NextSlot(At(t, b), Size)
    /\ tab' = (<<t, b>> :> RingAdd(At(t, b), id, Size)) @@ tab
    /\ log' = IF LogMax > 0
              THEN Append(log, [ix |-> [u \in 1..nt |-> IF u = t + 1 THEN b ELSE 0 - 1], id |-> id])
              ELSE log
    /\ UNCHANGED <<nt, nb, other>>

Clear == tab' = <<>> /\ log' = <<>> /\ UNCHANGED <<nt, nb, other>>

Clone == other' = <<tab, log>> /\ UNCHANGED <<nt, nb, tab, log>>
Swap == /\ other # <<>>
        /\ tab' = other[1] /\ log' = other[2] /\ other' = <<tab, log>>
        /\ UNCHANGED <<nt, nb>>

RawAnswer(ix) == [t \in 1..nt |-> At(t - 1, ix[t]).slots]
Raw(ix, ans) == Valid(ix) /\ ans = RawAnswer(ix) /\ UNCHANGED vars
Retrieve(t, b, i, ans) ==
    t \in Tables /\ b \in Buckets /\ ans = RingRead(At(t, b), i, Size) /\ UNCHANGED vars

\* ---- model checking
Ids == {1, 2}
Init == InitWith(2, 2)
Next == \/ \E ix \in [1..nt -> Buckets], id \in Ids :
              Add(ix, id, [t \in 1..nt |-> NextSlot(At(t - 1, ix[t]), Size)])
        \/ \E t \in Tables, b \in Buckets, id \in Ids : AddSingle(t, b, id, NextSlot(At(t, b), Size))
        \/ Clear \/ Clone \/ Swap
        \/ \E ix \in [1..nt -> Buckets] : Raw(ix, RawAnswer(ix))
Spec == Init /\ [][Next]_vars
Bound == Len(log) + (IF other = <<>> THEN 0 ELSE Len(other[2])) < LogMax

LogAt(t, b) == LET Hit(e) == e.ix[t + 1] = b IN
    [k \in 1..Len(SelectSeq(log, Hit)) |-> SelectSeq(log, Hit)[k].id]
\* The property: every bucket is the window of the insertions addressed to it.
EachBucketIsItsLog == \A t \in Tables, b \in Buckets : At(t, b) = RingOf(LogAt(t, b), Size)
\* Working on one copy leaves the other as it was.
OnItsOwn == [][other' # other => other' = <<tab, log>>]_vars
=============================================================================
