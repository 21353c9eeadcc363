------------------------------- MODULE ReaderMC -----------------------------
EXTENDS Reader
CONSTANTS MaxLines
LineShapes == [labels : {<<>>, <<"in">>, <<"in", "over">>, <<"bad", "over">>},
               feats : {<<>>, <<"ok">>, <<"ok", "neg">>, <<"badvalue", "over">>}]
Files == [header : {<<"ok", "ok", "ok">>, <<"ok", "zero", "ok">>, <<"ok", "ok">>},
          lines : UNION {[1..n -> LineShapes] : n \in 0..MaxLines},
          fault : 0..(MaxLines + 2), empty : {FALSE}]
Init == \E f \in Files : (f.fault <= Len(f.lines) + 2 /\ f.fault >= 0) /\ Open(f)
Next == Scan
Spec == Init /\ [][Next]_vars
=============================================================================
