-------------------------------- MODULE Index -------------------------------
(* The hash tables and hash functions of a network's layers. Networks are    *)
(* reached through handles; an operation under a new owner forks.            *)
(* A layer is seen as [tab, fp, idx]: per table and bucket the listed ids;   *)
(* a fingerprint of its hash functions; and for every neuron and table the   *)
(* bucket those functions give for its weights of the moment.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Cap              \* ids a bucket holds
VARIABLES shape,          \* per layer [n, sparse]
          handles         \* sequence of [owner, layers]
vars == <<shape, handles>>

Range(s) == {s[k] : k \in 1..Len(s)}
\* every neuron once in its bucket, unless the bucket overflows
Indexed(la, seen) ==
    \A t \in 1..Len(seen.tab) : \A b \in 1..Len(seen.tab[t]) :
        LET ids == seen.tab[t][b]
            due == TLCEval({j \in 0..(shape[la].n - 1) : seen.idx[j + 1][t] = b - 1})
        IN /\ Cardinality(Range(ids)) = Len(ids)
           /\ IF Cardinality(due) <= Cap THEN Range(ids) = due
              ELSE Range(ids) \subseteq due /\ Len(ids) = Cap
Same(before, seen) == seen.tab = before.tab /\ seen.fp = before.fp
Keep(seen) == [k \in 1..Len(seen) |-> [tab |-> seen[k].tab, fp |-> seen[k].fp]]

\* Every layer is indexed when it is built, dense ones too.
BuildOK(seen) == \A la \in 1..Len(shape) : Indexed(la, seen[la])
TrainOK(before, seen, rehash, rebuild) ==
    \A la \in 1..Len(shape) :
        IF shape[la].sparse /\ (rehash \/ rebuild)
        THEN /\ Indexed(la, seen[la])
             /\ (seen[la].fp = before[la].fp) = ~rebuild
        ELSE Same(before[la], seen[la])
SameOK(before, seen) == \A la \in 1..Len(shape) : Same(before[la], seen[la])
\* Drawing new functions for a layer: the tables are left as they are.
RedrawOK(before, seen) ==
    \A la \in 1..Len(shape) : seen[la].tab = before[la].tab /\ seen[la].fp # before[la].fp
ClearOK(before, seen) ==
    \A la \in 1..Len(shape) :
        /\ seen[la].fp = before[la].fp
        /\ \A t \in 1..Len(seen[la].tab) : \A b \in 1..Len(seen[la].tab[t]) : seen[la].tab[t][b] = <<>>
\* an id put into one bucket of every table (none of them is full)
AddOK(before, seen, b, id) ==
    \A la \in 1..Len(shape) :
        /\ seen[la].fp = before[la].fp
        /\ seen[la].tab = [t \in 1..Len(before[la].tab) |->
              [before[la].tab[t] EXCEPT ![b + 1] = Append(@, id)]]

\* seen: what every handle shows afterwards, the result at position ret
Result(h, owner) == IF handles[h].owner = owner THEN h ELSE Len(handles) + 1
Others(seen, ret) ==
    \A k \in 1..Len(handles) : k # ret => SameOK(handles[k].layers, seen[k])
Op(h, owner, ret, seen, ok(_, _)) ==
    /\ ret = Result(h, owner)
    /\ (ok(handles[h].layers, seen[ret]) = TRUE)
    /\ (Others(seen, ret) = TRUE)
    /\ handles' = [k \in 1..Len(seen) |->
          [owner |-> IF k = ret THEN owner ELSE handles[k].owner, layers |-> Keep(seen[k])]]
    /\ UNCHANGED shape
=============================================================================
