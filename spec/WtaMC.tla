------------------------------- MODULE WtaMC --------------------------------
(* The learning procedure is sound and complete: for every choice of hidden  *)
(* permutations it never gets stuck, recovers only true slots, and what it   *)
(* learned then explains every answer of the hidden windows.                 *)
EXTENDS Wta
CONSTANTS N, NH
VARIABLES hid, d    \* the hidden slots (all windows in a row), progress
mvars == <<vars, hid, d>>
Perms == {p \in [0..(N - 1) -> 0..(N - 1)] : \A a, b \in 0..(N - 1) : a # b => p[a] # p[b]}
Need == (NH * Bin + N - 1) \div N
Probes == [i \in 1..NH |-> [c \in 1..3 |-> (i + c - 1) % NH]]
Hidden(ps) == [g \in 0..(NH * Bin - 1) |-> ps[(g \div N) + 1][g % N]]
\* the hidden hasher (first largest slot wins)
HasSlots(i, val) == {s \in Slots : hid[GSlot(i, s)] \in DOMAIN val}
HWin(i, val) == CHOOSE s \in HasSlots(i, val) :
    \A u \in HasSlots(i, val) :
       \/ val[hid[GSlot(i, s)]] > val[hid[GSlot(i, u)]]
       \/ val[hid[GSlot(i, s)]] = val[hid[GSlot(i, u)]] /\ s <= u
HCode(i, val) ==
    IF HasSlots(i, val) # {} THEN HWin(i, val)
    ELSE LET hit == {c \in 1..3 : HasSlots(Probes[i][c] + 1, val) # {}} IN
         IF hit = {} THEN 0
         ELSE HWin(Probes[i][CHOOSE c \in hit : \A x \in hit : c <= x] + 1, val)
HHash(val) == [i \in 1..NH |-> HCode(i, val)]
Base(x) == [c \in 0..(N - 1) |-> IF c = x THEN N ELSE c]
Rev(x) == [c \in 0..(N - 1) |-> IF c = x THEN N ELSE N - 1 - c]
Init == /\ \E kind \in {"wta", "dwta"} :
             InitWith([n |-> N, nh |-> NH, kind |-> kind,
                       probes |-> IF kind = "dwta" THEN Probes ELSE <<>>])
        /\ \E ps \in [1..Need -> Perms] : hid = Hidden(ps)
        /\ d = 0
Next == \/ d < N /\ Learn(d, HHash(Base(d)), HHash(Rev(d))) /\ d' = d + 1 /\ UNCHANGED hid
        \/ d = N /\ Formed /\ d' = N + 1 /\ UNCHANGED hid
        \/ d = N + 1 /\ UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
\* no deadlock: checked by TLC
True == \A i \in Windows : \A s \in DOMAIN win[i] : win[i][s] = hid[GSlot(i, s)]
Explains == d = N + 1 =>
    /\ ProbesOK
    /\ \A v \in [0..(N - 1) -> 0..2] : \A i \in Windows : HCode(i, v) \in Answers(i, v)
    /\ shape.kind = "dwta" => \A S \in SUBSET (0..(N - 1)) :
         S # {} => \A i \in Windows :
             LET val == [c \in S |-> (c * 2) % N] IN HCode(i, val) \in Answers(i, val)
=============================================================================
