------------------------------ MODULE ForwardMC -----------------------------
(* Any history of queries and rests over a small layer, its slots and its    *)
(* forks. What a handle shows is set against the history: the events of its  *)
(* line of descent.                                                          *)
EXTENDS Forward
CONSTANTS Events, Owners, Slots
VARIABLES hist   \* sequence of [op, h, owner, slot, on, ret]
mvars == <<vars, hist>>
Quiet(lines) == TRUE
Subsets == {<<>>, <<0>>, <<1, 0>>}
MInit == /\ \E sm \in BOOLEAN :
              InitWith([layers |-> <<[n |-> 2, softmax |-> sm]>>, slots |-> Slots, owner |-> 1])
         /\ hist = <<>>
Query == \E h \in 1..Len(hs), o \in Owners, s \in 0..(Slots - 1), on \in Subsets :
            LET q == Len(hist) + 1
                g == Target(h, o)
            IN /\ Forward(1, q, h, o, s, <<>>, on, g)
               /\ hist' = Append(hist, [op |-> "query", h |-> h, slot |-> s, on |-> on, ret |-> g])
Sleep == \E h \in 1..Len(hs), s \in 0..(Slots - 1), on \in Subsets :
            /\ Rest(1, Len(hist) + 1, h, s, on)
            /\ hist' = Append(hist, [op |-> "rest", h |-> h, slot |-> s, on |-> on, ret |-> h])
MNext == \/ Len(hist) < Events /\ (Query \/ Sleep)
         \/ Len(hist) = Events /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

In(x, s) == \E k \in 1..Len(s) : s[k] = x
\* The last event up to q that speaks about neuron j (or, with j = -1, the
\* norm) of slot s of handle h, following forks to where they came from.
RECURSIVE Last(_, _, _, _)
Last(q, h, s, j) ==
    IF q = 0 THEN 0
    ELSE LET e == hist[q]
             speaks == e.slot = s /\ IF j = -1 THEN e.op = "query" ELSE In(j, e.on)
         IN IF e.ret = h /\ speaks THEN q
            ELSE IF e.ret = h THEN Last(q - 1, e.h, s, j)
            ELSE Last(q - 1, h, s, j)
\* A neuron shows what its slot's last query made of it, nothing before any,
\* nothing once at rest; left open only where a later query left it out.
ShowsLast ==
    \A h \in 1..Len(hs), s \in 0..(Slots - 1), j \in 0..1 :
       LET q == Last(Len(hist), h, s, j)
           a == act[<<h, s>>][j]
           \* queried since without it?
           left == Last(Len(hist), h, s, -1) > q
       IN IF q = 0 \/ hist[q].op = "rest" THEN a = Zero
          ELSE a = IF left THEN Unknown ELSE A(1, q, j)
NormLast ==
    \A h \in 1..Len(hs), s \in 0..(Slots - 1) :
       LET q == Last(Len(hist), h, s, -1)
       IN IF net.layers[1].softmax /\ q # 0
          THEN <<h, s>> \in DOMAIN norm /\ norm[<<h, s>>] = NormName(1, q)
          ELSE <<h, s>> \notin DOMAIN norm
\* One event touches one handle, and there one slot.
OneAtATime ==
    [][LET e == hist'[Len(hist')]
       IN /\ \A h \in 1..Len(hs) : h # e.ret => \A s \in 0..(Slots - 1) : act'[<<h, s>>] = act[<<h, s>>]
          /\ \A s \in 0..(Slots - 1) : s # e.slot => act'[<<e.ret, s>>] = act[<<e.h, s>>]
          /\ Len(hs') <= Len(hs) + 1]_mvars
=============================================================================
