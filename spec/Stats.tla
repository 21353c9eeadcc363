-------------------------------- MODULE Stats -------------------------------
(* What the program says about the data while it works: how many candidates  *)
(* the selections of a batch retrieved on average, layer by layer, and what  *)
(* every evaluated batch consists of; and for how long it has trained.       *)
(* cfg.layers: per layer [sel, out, tables]: "all" (dense), "threshold",     *)
(* "sampling" or "open" (nothing is said about it); hits: per layer, the     *)
(* neurons listed and in how many tables each of them is.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Threshold
VARIABLES cfg, hits,
          said,      \* the announcement not yet followed by its batch
          clock      \* [told, ticked]: the training time told last (in
                     \* microseconds), and whether it has gone up since
vars == <<cfg, hits, said, clock>>
Nothing == [n |-> -1, features |-> -1, labels |-> -1]
SetOf(s) == {s[k] : k \in 1..Len(s)}
Candidates(la, labels) ==
    LET truth == IF la = Len(cfg.layers) THEN SetOf(labels) ELSE {}
        need == IF cfg.layers[la].sel = "threshold" THEN Threshold ELSE 0
    IN truth \cup {hits[la][k][1] : k \in {x \in 1..Len(hits[la]) : hits[la][x][2] > need}}
Retrieved(la, labels) ==
    IF cfg.layers[la].sel = "all" THEN 0 ELSE Cardinality(Candidates(la, labels))
RECURSIVE Total(_, _, _)
Total(la, exs, k) == IF k = 0 THEN 0 ELSE Retrieved(la, exs[k]) + Total(la, exs, k - 1)
\* averages: in thousandths, rounded
AverageOK(la, exs, x) ==
    \/ cfg.layers[la].sel = "open"
    \/ (x * Len(exs) - 1000 * Total(la, exs, Len(exs))) \in (-Len(exs))..Len(exs)
Fill(h) == hits' = h /\ UNCHANGED <<cfg, said, clock>>
\* exs: the labels of each example; reports: the lines given during the batch
Batch(exs, rehash, reports) ==
    /\ (rehash => Len(reports) = 1) = TRUE
    /\ \A r \in 1..Len(reports) :
          /\ (Len(reports[r]) = Len(cfg.layers)) = TRUE
          /\ \A la \in 1..Len(cfg.layers) : AverageOK(la, exs, reports[r][la]) = TRUE
    /\ UNCHANGED vars
Announce(a) == said' = a /\ UNCHANGED <<cfg, hits, clock>>
Trained == clock' = [clock EXCEPT !.ticked = TRUE] /\ UNCHANGED <<cfg, hits, said>>
\* Training time goes up with every batch trained, never back, and the program
\* cannot have trained for longer than it has been running.
TellTime(us, wall) ==
    /\ (us >= clock.told /\ us <= wall /\ (clock.ticked => us > clock.told)) = TRUE
    /\ clock' = [told |-> us, ticked |-> FALSE] /\ UNCHANGED <<cfg, hits, said>>
\* an empty batch need not be announced
Evaluate(a) == (said = a \/ (a.n = 0 /\ said = Nothing)) = TRUE /\ said' = Nothing /\ UNCHANGED <<cfg, hits, clock>>
NotYet == [told |-> 0, ticked |-> FALSE]
=============================================================================
