------------------------------- MODULE ConfigMC -----------------------------
EXTENDS Config
CONSTANT MaxHeld
S == <<[name |-> "K", type |-> "ints", default |-> <<>>],
       [name |-> "Epoch", type |-> "int", default |-> 5]>>
Values(s) == IF Settings[s].type \in ListTypes THEN {<<>>, <<1>>} ELSE {0, 1}
Next ==
    \/ /\ Len(held) < MaxHeld
       /\ \/ \E D \in SUBSET Ids : \E v \in Values(1), w \in Values(2) :
                Load([s \in D |-> IF s = 1 THEN v ELSE w])
          \/ Default
    \/ \E k \in BadFiles : LoadBad(k)
    \/ \E h \in 1..Len(held) :
          \/ \E s \in Ids : \E v \in Values(s) : Set(h, s, v)
          \/ \E s \in {t \in Ids : Settings[t].type \in ListTypes}, v \in 0..1 : SetElement(h, s, 1, v) \/ (Len(held[h][s]) < 2 /\ AppendElement(h, s, v))
Spec == Init /\ [][Next]_vars
\* what the last loaded one shows depends on its file alone
Fresh == [][result' = "ok" => \A s \in Ids :
              held'[Len(held')][s] = Settings[s].default \/ held'[Len(held')][s] \in Values(s)]_vars
=============================================================================
