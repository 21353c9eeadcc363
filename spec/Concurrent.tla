----------------------------- MODULE Concurrent -----------------------------
(* Copy on write while several owners work at the same time on forks of one  *)
(* original that is at rest. Every owner has a root that points to nodes,    *)
(* nodes point to leaves, leaves hold values; nodes and leaves carry the     *)
(* owner they were made for. Every read and every write is a step of its     *)
(* own, in any interleaving.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Owners,   \* not 0, which is the original's
          Cells, Work \* operations of every owner
VARIABLES root,     \* owner -> cell -> node
          nodes,    \* sequence of [tag, leaf]
          leaves,   \* sequence of [tag, val]
          pc,       \* owner -> what it does next
          reg,      \* owner -> [cell, node, leaf, val, next]: what it has in hand
          due       \* owner -> cell -> what it should see there
vars == <<root, nodes, leaves, pc, reg, due>>

None == 0
N == Cardinality(Cells)
Init ==
    /\ root = [o \in Owners \cup {0} |-> [c \in Cells |-> IF o = 0 THEN c ELSE None]]
    /\ nodes = [c \in 1..N |-> [tag |-> 0, leaf |-> c]]
    /\ leaves = [c \in 1..N |-> [tag |-> 0, val |-> 10 * c]]
    /\ pc = [o \in Owners |-> "fork"]
    /\ reg = [o \in Owners |-> [cell |-> 1, node |-> None, leaf |-> None, val |-> 0, left |-> Work]]
    /\ due = [o \in Owners |-> [c \in Cells |-> 10 * c]]
To(o, where) == pc' = [pc EXCEPT ![o] = where]
Hold(o, r) == reg' = [reg EXCEPT ![o] = r]
R(o) == reg[o]
\* forking copies the original's root, cell by cell
Fork(o) ==
    /\ pc[o] = "fork"
    /\ root' = [root EXCEPT ![o][R(o).cell] = root[0][R(o).cell]]
    /\ IF R(o).cell = N THEN To(o, "pick") /\ UNCHANGED reg
       ELSE Hold(o, [R(o) EXCEPT !.cell = @ + 1]) /\ UNCHANGED pc
    /\ UNCHANGED <<nodes, leaves, due>>
\* an operation adds the owner's id to one value
Choose(o) ==
    /\ pc[o] = "pick" /\ R(o).left > 0
    /\ \E c \in Cells :
          /\ Hold(o, [R(o) EXCEPT !.cell = c, !.node = root[o][c], !.left = @ - 1])
          /\ due' = [due EXCEPT ![o][c] = @ + o]
    /\ To(o, "node") /\ UNCHANGED <<root, nodes, leaves>>
OwnNode(o) ==
    /\ pc[o] = "node"
    /\ IF nodes[R(o).node].tag = o
       THEN UNCHANGED <<nodes, root>> /\ Hold(o, [R(o) EXCEPT !.leaf = nodes[R(o).node].leaf])
       ELSE /\ nodes' = Append(nodes, [tag |-> o, leaf |-> nodes[R(o).node].leaf])
            /\ root' = [root EXCEPT ![o][R(o).cell] = Len(nodes')]
            /\ Hold(o, [R(o) EXCEPT !.node = Len(nodes'), !.leaf = nodes[R(o).node].leaf])
    /\ To(o, "leaf") /\ UNCHANGED <<leaves, due>>
OwnLeaf(o) ==
    /\ pc[o] = "leaf"
    /\ IF leaves[R(o).leaf].tag = o
       THEN UNCHANGED <<nodes, leaves, reg>>
       ELSE /\ leaves' = Append(leaves, [tag |-> o, val |-> leaves[R(o).leaf].val])
            /\ nodes' = [nodes EXCEPT ![R(o).node].leaf = Len(leaves')]
            /\ Hold(o, [R(o) EXCEPT !.leaf = Len(leaves')])
    /\ To(o, "read") /\ UNCHANGED <<root, due>>
Read(o) == /\ pc[o] = "read" /\ Hold(o, [R(o) EXCEPT !.val = leaves[R(o).leaf].val])
           /\ To(o, "write") /\ UNCHANGED <<root, nodes, leaves, due>>
Write(o) == /\ pc[o] = "write"
            /\ leaves' = [leaves EXCEPT ![R(o).leaf].val = R(o).val + o]
            /\ To(o, "pick") /\ UNCHANGED <<root, nodes, reg, due>>
Next == \E o \in Owners : Fork(o) \/ Choose(o) \/ OwnNode(o) \/ OwnLeaf(o) \/ Read(o) \/ Write(o)
Spec == Init /\ [][Next]_vars

\* ---- what a user relies on
View(o, c) == leaves[nodes[root[o][c]].leaf].val
AtRest == \A c \in Cells : View(0, c) = 10 * c
AsAlone == \A o \in Owners : (pc[o] = "pick" => \A c \in Cells : View(o, c) = due[o][c])
\* who is about to change an object is the only one who can get at it
Reach(o) == {root[o][c] : c \in Cells} \ {None}
Private == \A o \in Owners, p \in Owners \cup {0} : o # p =>
    /\ pc[o] \in {"leaf", "read", "write"} => R(o).node \notin Reach(p)
    /\ pc[o] \in {"read", "write"} => \A x \in Reach(p) : nodes[x].leaf # R(o).leaf
Tagged == \A o \in Owners :
    /\ pc[o] \in {"leaf", "read", "write"} => nodes[R(o).node].tag = o
    /\ pc[o] \in {"read", "write"} => leaves[R(o).leaf].tag = o
=============================================================================
