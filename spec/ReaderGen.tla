------------------------------ MODULE ReaderGen -----------------------------
(* Draws files and read attempts (simulation mode) for the harness.          *)
EXTENDS Reader, TLC, Json, CSV
VARIABLE log
gvars == <<file, pos, err, out, ended, log>>
Pick(X) == RandomElement(X)
Chance(n) == RandomElement(1..n) = 1
Seqs(n, good, kinds, odds) ==
    TLCEval([k \in 1..n |-> IF Chance(odds) THEN Pick(kinds) ELSE good])
GHeader(odds) == IF Chance(odds) THEN Seqs(Pick(1..5), "ok", HeaderKinds, 4) ELSE <<"ok", "ok", "ok">>
\* now and then a line is long
Wide(n, odds) == IF Chance(odds) THEN n * 60 ELSE n
GLine(odds, wide) ==
    [labels |-> Seqs(Pick(0..Wide(4, wide)), "in", LabelKinds, odds),
     feats |-> Seqs(IF Chance(odds * 3) THEN 0 ELSE Pick(1..Wide(5, wide)), "ok", FeatureKinds, odds)]
GFile(odds) ==
    LET n == TLCEval(IF Chance(40) THEN Pick(9..150) ELSE Pick(0..8)) wide == TLCEval(Pick({10, 1000})) IN
    TLCEval([header |-> GHeader(6), lines |-> [k \in 1..n |-> TLCEval(GLine(odds, wide))],
             fault |-> IF Chance(4) THEN Pick(1..(n + 2)) ELSE 0, empty |-> Chance(60)])
View == [pos |-> pos', err |-> err', ok |-> Success]
GInit == /\ pos = 0 /\ err = "none" /\ out = <<>> /\ ended = FALSE /\ log = <<>>
         /\ file = [header |-> <<>>, lines |-> <<>>, fault |-> 0, empty |-> TRUE]
\* the draw is a state of its own, so that it is made once
GDraw == /\ log = <<>>
         /\ \E f \in {GFile(Pick({12, 40, 1000, 10000}))} :
              LET g == IF f.empty THEN [f EXCEPT !.lines = <<>>, !.fault = IF @ = 1 THEN 1 ELSE 0] ELSE f IN
              /\ file' = g /\ out' = <<>> /\ ended' = FALSE
              /\ IF g.fault = 1 THEN pos' = 0 /\ err' = "io"
                 ELSE IF g.empty THEN pos' = 0 /\ err' = "header"
                 ELSE pos' = 1 /\ err' = (IF HeaderOK(g.header) THEN "none" ELSE "header")
         /\ log' = <<[pos |-> pos', err |-> err', ok |-> FALSE]>>
GScan == /\ log # <<>> /\ Len(log) < Len(file.lines) + 4
         /\ Scan /\ log' = Append(log, View)
GEmit == /\ log # <<>> /\ Len(log) = Len(file.lines) + 4
         /\ CSVWrite("%1$s", <<ToJson([file |-> file, log |-> log])>>, "prog.ndjson")
         /\ log' = Append(log, [pos |-> 0, err |-> "done", ok |-> FALSE])
         /\ UNCHANGED <<file, pos, err, out, ended>>
GSpec == GInit /\ [][GDraw \/ GScan \/ GEmit]_gvars
=============================================================================
