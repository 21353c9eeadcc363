------------------------------- MODULE IndexMC ------------------------------
(* The training step as the code performs it: tables are cleared, functions  *)
(* drawn, and then neuron after neuron is updated and inserted again. Where  *)
(* a neuron's weights land is arbitrary for every function and every update. *)
EXTENDS Index
CONSTANTS N, Buckets
VARIABLES mode,    \* [rehash, rebuild, sparse] of the step under way
          pc,      \* next neuron to update; N+1: between steps
          fp,      \* hash functions in use (a number)
          at,      \* where the current weights land under fp
          tab,     \* bucket -> ids, oldest first
          before   \* the layer when the step began
mvars == <<shape, handles, mode, pc, fp, at, tab, before>>

Ids == 0..(N - 1)
Push(s, x) == IF Len(s) = Cap THEN Append(Tail(s), x) ELSE Append(s, x)
Seen == [tab |-> <<[b \in 1..Buckets |-> tab[b]]>>, fp |-> fp,
         idx |-> [j \in 1..N |-> <<at[j - 1]>>]]
RECURSIVE Fill(_, _, _)
Fill(where, tb, j) ==
    IF j = N THEN tb
    ELSE Fill(where, [tb EXCEPT ![where[j] + 1] = Push(@, j)], j + 1)
Empty == [b \in 1..Buckets |-> <<>>]
Init == /\ handles = <<>> /\ fp = 0 /\ pc = N
        /\ mode \in [rehash : BOOLEAN, rebuild : BOOLEAN, sparse : BOOLEAN]
        /\ shape = <<[n |-> N, sparse |-> mode.sparse]>>
        /\ at \in [Ids -> 0..(Buckets - 1)]
        /\ tab = Fill(at, Empty, 0)
        /\ before = [tab |-> <<tab>>, fp |-> fp, idx |-> [j \in 1..N |-> <<at[j - 1]>>]]
Fills == (mode.rehash \/ mode.rebuild) /\ mode.sparse
Start == /\ pc = N
         /\ \E m \in [rehash : BOOLEAN, rebuild : BOOLEAN, sparse : {mode.sparse}] : mode' = m
         /\ before' = Seen
         /\ tab' = IF mode'.sparse /\ (mode'.rehash \/ mode'.rebuild) THEN Empty ELSE tab
         /\ fp' = IF mode'.sparse /\ mode'.rebuild THEN 1 - fp ELSE fp
         \* the weights are hashed anew if the functions changed
         /\ IF fp' = fp THEN at' = at ELSE at' \in [Ids -> 0..(Buckets - 1)]
         /\ pc' = 0 /\ UNCHANGED <<shape, handles>>
Update == /\ pc < N
          /\ \E b \in 0..(Buckets - 1) :
               /\ at' = [at EXCEPT ![pc] = b]
               /\ tab' = IF Fills THEN [tab EXCEPT ![b + 1] = Push(@, pc)] ELSE tab
          /\ pc' = pc + 1 /\ UNCHANGED <<shape, handles, mode, fp, before>>
Spec == Init /\ [][Start \/ Update]_mvars
\* Between steps the layer is as the specification wants it.
Explained == pc = N => TrainOK(<<before>>, <<Seen>>, mode.rehash, mode.rebuild)
                       \/ Seen = before
=============================================================================
