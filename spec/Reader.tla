-------------------------------- MODULE Reader ------------------------------
(* The dataset reader. A file is a header and lines made of tokens, of which *)
(* only the kind matters here; the harness spells them out. fault = k > 0:   *)
(* reading breaks down inside line k (the header is line 1); 0: never.       *)
EXTENDS Integers, Sequences
VARIABLES file,   \* [header, lines, fault, empty]
          pos,    \* lines consumed, the header included
          err,    \* kind of the error that stopped the reader, or "none"
          out,    \* numbers of the lines delivered
          ended   \* the end has been reached
vars == <<file, pos, err, out, ended>>

LabelKinds == {"in", "over", "neg", "bad"}
FeatureKinds == {"ok", "over", "neg", "badindex", "badvalue", "nocolon", "colons", "empty"}
HeaderKinds == {"ok", "zero", "neg", "bad", "empty"}

HeaderOK(h) == Len(h) = 3 /\ \A k \in 1..3 : h[k] = "ok"
RECURSIVE LabelErr(_, _)
LabelErr(ls, k) == IF k > Len(ls) THEN "none"
    ELSE CASE ls[k] = "bad" -> "labels"
           [] ls[k] \in {"over", "neg"} -> "labelbound"
           [] ls[k] = "in" -> LabelErr(ls, k + 1)
RECURSIVE FeatureErr(_, _)
FeatureErr(fs, k) == IF k > Len(fs) THEN "none"
    ELSE CASE fs[k] \in {"over", "neg"} -> "featurebound"
           [] fs[k] = "ok" -> FeatureErr(fs, k + 1)
           [] OTHER -> "features"
\* the first bad thing of a line
LineErr(line) ==
    LET l == LabelErr(line.labels, 1)
    IN IF l # "none" THEN l
       ELSE IF line.feats = <<>> THEN "missing"
       ELSE FeatureErr(line.feats, 1)

\* Opening reads the header.
Open(f) ==
    /\ file = f /\ out = <<>> /\ ended = FALSE
    /\ IF f.fault = 1 THEN pos = 0 /\ err = "io"
       ELSE IF f.empty THEN pos = 0 /\ err = "header"
       ELSE pos = 1 /\ err = (IF HeaderOK(f.header) THEN "none" ELSE "header")
\* One attempt to read a line.
Stopped == err # "none" \/ ended
Scan ==
    \/ Stopped /\ UNCHANGED vars
    \/ /\ ~Stopped /\ pos + 1 = file.fault
       /\ err' = "io" /\ UNCHANGED <<file, pos, out, ended>>
    \/ /\ ~Stopped /\ pos + 1 # file.fault /\ pos > Len(file.lines)
       /\ ended' = TRUE /\ UNCHANGED <<file, pos, err, out>>
    \/ /\ ~Stopped /\ pos + 1 # file.fault /\ pos <= Len(file.lines)
       /\ pos' = pos + 1
       /\ err' = LineErr(file.lines[pos])
       /\ out' = IF err' = "none" THEN Append(out, pos) ELSE out
       /\ UNCHANGED <<file, ended>>
Success == Len(out') > Len(out)

\* ---- what a user relies on
\* exactly the lines before the first bad thing, in order
Faithful ==
    /\ out = [k \in 1..Len(out) |-> k]
    /\ \A k \in 1..Len(out) : LineErr(file.lines[k]) = "none" /\ (file.fault = 0 \/ k + 1 < file.fault)
    /\ Len(out) > 0 => HeaderOK(file.header)
Ends == ended => Len(out) = Len(file.lines) /\ err = "none"
\* the line number names the offending line
Names == err \notin {"none", "header", "io"} =>
            pos >= 2 /\ LineErr(file.lines[pos - 1]) = err /\ Len(out) = pos - 2
Stays == [][err # "none" => err' = err /\ out' = out /\ pos' = pos]_vars
=============================================================================
