-------------------------------- MODULE Build -------------------------------
(* Building a network: its shape, its initial values, and that no two of its *)
(* parts are one. cfg: per layer [n, softmax, tables, pow, code], the number *)
(* of inputs, example slots, whether Adam is on, and whether the parameters  *)
(* are given. A cell is one place of a network that holds a number.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,
          nets          \* networks in existence
vars == <<cfg, nets>>

Layers == 1..Len(cfg.layers)
Prev(la) == IF la = 1 THEN cfg.dim ELSE cfg.layers[la - 1].n
Size(la) == cfg.layers[la].n
\* Given parameters come as one list per layer, neuron after neuron.
Flat(la, j, d) == (j - 1) * Prev(la) + d
Given(la, base) == [j \in 1..Size(la) |-> [d \in 1..Prev(la) |-> base + Flat(la, j, d)]]
GivenBias(la, base) == [j \in 1..Size(la) |-> base + j]

\* kinds of cells: per input of a neuron, per neuron, per slot of a neuron, per slot of a layer
PerInput == {"w"} \cup (IF cfg.adam THEN {"t", "m", "v"} ELSE {"mw"})
PerNeuron == {"b"} \cup (IF cfg.adam THEN {"tb", "mb", "vb"} ELSE {"mirb"})
PerSlot == {"act", "err"}
IsCell(c) ==
    /\ c.la \in Layers /\ c.net \in 1..nets
    /\ CASE c.kind \in PerInput -> c.j \in 1..Size(c.la) /\ c.d \in 1..Prev(c.la)
         [] c.kind \in PerNeuron -> c.j \in 1..Size(c.la) /\ c.d = 0
         [] c.kind \in PerSlot -> c.j \in 1..Size(c.la) /\ c.d \in 1..cfg.slots
         [] OTHER -> FALSE

\* ---- the shape
SetOf(s) == {s[k] : k \in 1..Len(s)}
ShapeOK(la, s) ==
    LET want == cfg.layers[la] IN
    /\ s.n = want.n /\ s.nodes = want.n
    /\ s.softmax = want.softmax
    /\ SetOf(s.rows) = {Prev(la)}
    /\ SetOf(s.adamdims) = {IF cfg.adam THEN Prev(la) ELSE 0}
    /\ s.code = want.code                       \* codes a hash has: K * L
    /\ s.tables = want.tables /\ s.corners = want.tables   \* L tables, each with its last bucket
    /\ s.slots = cfg.slots
\* nothing has happened yet: accumulators, moments and slots hold nothing
BlankOK(s) == s.stained = 0
\* accumulated parameters start as the parameters
MirrorOK(s) == s.unlike = 0
GivenOK(la, s) ==
    /\ s.w = Given(la, cfg.base)
    /\ s.b = GivenBias(la, cfg.base)
    /\ cfg.adam => /\ s.m = Given(la, cfg.base + 500000)
                   /\ s.v = Given(la, cfg.base + 1000000)
Built(seen) ==
    /\ (Len(seen) = Len(cfg.layers)) = TRUE
    /\ \A la \in Layers : (ShapeOK(la, seen[la]) /\ BlankOK(seen[la]) /\ MirrorOK(seen[la])) = TRUE
    /\ \A la \in Layers : (cfg.given => GivenOK(la, seen[la])) = TRUE

\* ---- drawn parameters: independent, normal, mean 0, deviation 0.01.
\* s: how many, their sum (1e-6), sum of squares (1e-8), how many positive,
\* how many within one deviation (1e-2), the largest magnitude (1e-6), how
\* many occur twice, neurons with the same row, how many are exactly zero, and
\* the sums of products (1e-8) with the draws one, two and three earlier and
\* the one in the same place of the row before. Seven deviations are allowed.
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == IF Abs(x) > 40000 THEN 1600000000 ELSE x * x
DrawnOK(s) ==
    /\ Sq(Abs(s.sum) \div 10000) <= 49 * s.n
    /\ Sq(Abs(s.sq \div 10000 - s.n)) <= 98 * s.n + 10
    /\ Sq(2 * s.pos - s.n) <= 49 * s.n
    /\ Sq(Abs(s.near * 10 - (s.n * 6827) \div 1000)) <= 49 * 22 * s.n + 400
    /\ s.far < 90000
    /\ s.twice <= 5 + s.n \div 2000      \* (draws have 32 bits)
    /\ s.rows = 0 /\ s.zero <= 1
    /\ \A k \in 1..Len(s.with) : Sq(Abs(s.with[k]) \div 10000) <= 49 * s.n + 3000

\* ---- a cell is written: nothing else changes, in no network
Write(c, changed) == /\ (IsCell(c) /\ SetOf(changed) = {c}) = TRUE
                     /\ UNCHANGED vars
\* another network is built: the first does not change, and is not copied
Again(changed, same) == /\ (changed = <<>> /\ (cfg.given \/ same <= 5)) = TRUE
                        /\ nets' = nets + 1 /\ UNCHANGED cfg
Program(got, want) == (got = want) /\ UNCHANGED vars
=============================================================================
