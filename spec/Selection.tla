----------------------------- MODULE Selection ------------------------------
(* Which neurons of a layer become active for one example. Neurons count     *)
(* from 0. A query is explained by an active list when one of the actions    *)
(* below allows it; what is left to chance in the code is left open here.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threshold,     \* a neuron needs more hits than this
          Floor          \* the sampling mode fills up to this many
VARIABLES shape          \* [n, softmax]: size and kind of the layer
vars == <<shape>>

Neurons == 0..(shape.n - 1)
SetOf(s) == {s[k] : k \in 1..Len(s)}
NoRepeat(s) == Cardinality(SetOf(s)) = Len(s)
InLayer(s) == SetOf(s) \subseteq Neurons
Min(a, b) == IF a < b THEN a ELSE b
Truth(labels) == IF shape.softmax THEN SetOf(labels) ELSE {}
InitWith(s) == shape = s

\* ---- dense: everything once, in order
DenseOK(active) == active = [k \in 1..shape.n |-> k - 1]

\* ---- LSH-guided; buckets: the content of the queried bucket of each table
Found(buckets) == UNION {SetOf(buckets[t]) : t \in 1..Len(buckets)}
Hits(n, buckets) == Cardinality({t \in 1..Len(buckets) : n \in SetOf(buckets[t])})
ThresholdSet(labels, buckets) ==
    LET sets == TLCEval([t \in 1..Len(buckets) |-> SetOf(buckets[t])])
        hits(n) == Cardinality({t \in 1..Len(buckets) : n \in sets[t]})
    IN Truth(labels) \cup {n \in Found(buckets) : hits(n) > Threshold}
ThresholdOK(labels, buckets, active, in) ==
    /\ NoRepeat(active)
    /\ SetOf(active) = ThresholdSet(labels, buckets)
    /\ in = Len(active)
Base(labels, buckets) == Truth(labels) \cup Found(buckets)
SamplingOK(labels, buckets, active, in) ==
    LET base == TLCEval(Base(labels, buckets))
        act == TLCEval(SetOf(active))
    IN /\ NoRepeat(active) /\ act \subseteq Neurons
       /\ in = Cardinality(base)
       /\ IF Cardinality(base) >= Floor THEN act = base
          ELSE /\ base \subseteq act
               /\ Len(active) = Min(Floor, shape.n)

\* The same query many times over, in short: the sizes of the active lists,
\* the neurons that were always active, and those that ever were.
OftenOK(mode, labels, buckets, sizes, always, ever) ==
    LET base == TLCEval(IF mode = "threshold" THEN ThresholdSet(labels, buckets) ELSE Base(labels, buckets))
        short == mode = "sampling" /\ Cardinality(base) < Floor
    IN /\ SetOf(sizes) = {IF short THEN Min(Floor, shape.n) ELSE Cardinality(base)}
       /\ base \subseteq SetOf(always) /\ SetOf(always) \subseteq SetOf(ever)
       /\ IF short THEN SetOf(ever) \subseteq Neurons ELSE SetOf(ever) = base

\* ---- random and exact-top modes of an output layer; sparsity num/den
Places(num, den) == (shape.n * num) \div den
LabelsFit(labels, active) ==
    \/ SetOf(labels) \subseteq SetOf(active)
    \/ SetOf(active) \subseteq SetOf(labels)
RandomOK(labels, num, den, active) ==
    /\ NoRepeat(active) /\ InLayer(active)
    /\ Len(active) = Places(num, den)
    /\ LabelsFit(labels, active)
\* What is left to chance is left to real chance: over that many queries
\* every neuron of the layer has come up (see chances in the harness).
EveryoneCame(seen) == SetOf(seen) = Neurons
\* Drawing without a pattern: of free neurons, that many were drawn each time.
\* Two given ones come together as often as they should, but for ten
\* deviations; counted over all pairs that are one, two, three apart.
SqDiff(a, b) == IF a - b > 40000 \/ b - a > 40000 THEN 1600000000 ELSE (a - b) * (a - b)
NoPattern(times, drawn, free, together) ==
    free > 1 => \A k \in 1..Len(together) :
        LET due == (((times * together[k][1] * drawn) \div free) * (drawn - 1)) \div (free - 1)
        IN SqDiff(together[k][2], due) <= 100 * due + 1000
RECURSIVE Dot(_, _, _)
Dot(w, x, k) == IF k = 0 THEN 0 ELSE w[x[k][1] + 1] * x[k][2] + Dot(w, x, k - 1)
Scores(weights, bias, x) ==
    [n \in Neurons |-> Dot(weights[n + 1], x, Len(x)) + bias[n + 1]]
ExactOK(labels, num, den, score, active) ==
    LET act == TLCEval(SetOf(active))
        lab == TLCEval(SetOf(labels))
    IN /\ RandomOK(labels, num, den, active)
       /\ \A c \in act \ lab : \A u \in Neurons \ (act \cup lab) : score[c] >= score[u]

Query(ok) == (ok = TRUE) /\ UNCHANGED vars
=============================================================================
