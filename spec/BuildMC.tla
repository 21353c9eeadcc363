------------------------------- MODULE BuildMC ------------------------------
(* Building neuron by neuron out of one list per layer gives every neuron a  *)
(* row of its own and uses the list up; and whatever is then written through *)
(* the rows, no cell ever shows a write meant for another.                   *)
EXTENDS Build
CONSTANTS MaxLayers, MaxSize, MaxWrites
VARIABLES la, j,      \* the neuron built next
          place,      \* cell <<layer, neuron, input>> -> position in the layer's list
          mem,        \* list contents: <<layer, position>> -> number of writes
          wrote       \* cell -> number of writes meant for it
mvars == <<cfg, nets, la, j, place, mem, wrote>>
Sizes == UNION {[1..m -> 1..MaxSize] : m \in 1..MaxLayers}
MInit == /\ \E sz \in Sizes : \E dim \in 1..MaxSize :
              cfg = [layers |-> [k \in 1..Len(sz) |-> [n |-> sz[k]]], dim |-> dim, adam |-> FALSE, slots |-> 1]
         /\ nets = 0 /\ la = 1 /\ j = 1 /\ place = <<>> /\ mem = <<>> /\ wrote = <<>>
Complete == la > Len(cfg.layers)
BuildOne ==
    /\ ~Complete
    /\ place' = [c \in {<<la, j, d>> : d \in 1..Prev(la)} |-> Flat(la, j, c[3])] @@ place
    /\ IF j < Size(la) THEN la' = la /\ j' = j + 1 ELSE la' = la + 1 /\ j' = 1
    /\ IF la' > Len(cfg.layers)
       THEN /\ nets' = 1
            /\ mem' = [c \in UNION {{<<k, p>> : p \in 1..(Size(k) * Prev(k))} : k \in Layers} |-> 0]
            /\ wrote' = [c \in DOMAIN place' |-> 0]
       ELSE UNCHANGED <<nets, mem, wrote>>
    /\ UNCHANGED cfg
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
WriteOne == /\ Complete /\ Total(wrote, DOMAIN wrote) < MaxWrites
            /\ \E c \in DOMAIN place :
                 /\ mem' = [mem EXCEPT ![<<c[1], place[c]>>] = @ + 1]
                 /\ wrote' = [wrote EXCEPT ![c] = @ + 1]
            /\ UNCHANGED <<cfg, nets, la, j, place>>
MSpec == MInit /\ [][BuildOne \/ WriteOne]_mvars /\ WF_mvars(BuildOne)
UsedUp == Complete => \A k \in Layers : {place[c] : c \in {x \in DOMAIN place : x[1] = k}} = 1..(Size(k) * Prev(k))
OwnRow == \A c \in DOMAIN place : \A e \in DOMAIN place : c # e /\ c[1] = e[1] => place[c] # place[e]
WritesStay == Complete => \A c \in DOMAIN place : mem[<<c[1], place[c]>>] = wrote[c]
CellsAll == Complete => \A c \in DOMAIN place : IsCell([net |-> 1, kind |-> "w", la |-> c[1], j |-> c[2], d |-> c[3]])
Ends == <>Complete
=============================================================================
