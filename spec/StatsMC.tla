-------------------------------- MODULE StatsMC -----------------------------
(* Counting example by example, bucket by bucket, as a program does it, ends *)
(* with the averages Stats specifies, whatever is in the tables.             *)
EXTENDS Stats
CONSTANTS N, Tables, Examples
VARIABLES tab,       \* table -> set of listed neurons
          exs,       \* labels of the examples
          k, t,      \* example and table being counted
          count,     \* neuron -> hits so far (labels count as enough)
          sum        \* retrieved so far
mvars == <<cfg, hits, said, clock, tab, exs, k, t, count, sum>>
Neurons == 0..(N - 1)
LabelLists == {<<>>} \cup {<<a>> : a \in Neurons} \cup {<<a, b>> : a, b \in Neurons}
HitsOf(tb) == [x \in 1..N |-> <<x - 1, Cardinality({y \in 1..Tables : x - 1 \in tb[y]})>>]
Start(e) == [n \in Neurons |-> IF n \in SetOf(exs[e]) THEN Threshold + 1 ELSE 0]
MInit == /\ \E sel \in {"threshold", "sampling"} : cfg = [layers |-> <<[sel |-> sel]>>]
         /\ tab \in [1..Tables -> SUBSET Neurons] /\ hits = <<HitsOf(tab)>> /\ said = Nothing /\ clock = NotYet
         /\ exs \in UNION {[1..m -> LabelLists] : m \in 1..Examples}
         /\ k = 1 /\ t = 1 /\ sum = 0
         /\ count = [n \in Neurons |-> IF n \in SetOf(exs[1]) THEN Threshold + 1 ELSE 0]
Same == UNCHANGED <<cfg, hits, said, clock, tab, exs>>
CountTable == /\ k <= Len(exs) /\ t <= Tables
              /\ count' = [n \in Neurons |-> count[n] + IF n \in tab[t] THEN 1 ELSE 0]
              /\ t' = t + 1 /\ Same /\ UNCHANGED <<k, sum>>
Need == IF cfg.layers[1].sel = "threshold" THEN Threshold ELSE 0
EndExample == /\ k <= Len(exs) /\ t > Tables
              /\ sum' = sum + Cardinality({n \in Neurons : count[n] > Need})
              /\ k' = k + 1 /\ t' = 1
              /\ count' = IF k' <= Len(exs) THEN Start(k') ELSE count
              /\ Same
MSpec == MInit /\ [][CountTable \/ EndExample]_mvars
Right == k > Len(exs) => /\ sum = Total(1, exs, Len(exs))
                         /\ AverageOK(1, exs, (1000 * sum) \div Len(exs))
                         /\ ~AverageOK(1, exs, (1000 * sum) \div Len(exs) + 1000)
=============================================================================
