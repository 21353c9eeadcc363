------------------------------- MODULE ConfigGen ----------------------------
(* Draws histories of loads and modifications (simulation) for the harness.  *)
EXTENDS Config, TLC, Json, CSV
CONSTANT Depth
VARIABLE log
St(n, t, d) == [name |-> n, type |-> t, default |-> d]
\* floats are counted in units of 0.0001
S == <<St("RangePow", "ints", <<>>), St("K", "ints", <<>>), St("L", "ints", <<>>),
       St("Sparsity", "floats", <<>>), St("BatchSize", "int", 1000), St("Rehash", "int", 1000),
       St("Rebuild", "int", 1000), St("InputDim", "int", 784), St("TotRecords", "int", 60000),
       St("TotRecordsTest", "int", 10000), St("LearningRate", "float", 1), St("Epoch", "int", 5),
       St("Stepsize", "int", 20), St("SizesOfLayers", "ints", <<>>), St("NumLayer", "int", 3),
       St("TrainData", "string", 0), St("TestData", "string", 0), St("Weights", "string", 0),
       St("SavedWeights", "string", 0), St("LogFile", "string", 0), St("UseAdam", "bool", 1),
       St("HashFunction", "enum", 2), St("LoadWeight", "bool", 0), St("LayerMode", "enum", 4),
       St("CpuProfile", "bool", 0), St("MemProfile", "bool", 0)>>
Pick(X) == RandomElement(X)
Chance(n) == RandomElement(1..n) = 1
Number(x) == Pick({0, 1, 2, 7, 64, 1000, 123456789, Pick(0..100000)})
List(x) == LET n == TLCEval(Pick({0, 1, 2, 3, 5})) IN TLCEval([k \in 1..n |-> Number(k)])
Value(t) == CASE t \in ListTypes -> List(t)
              [] t = "bool" -> Pick(0..1)
              [] t = "enum" -> Pick(1..4)
              [] OTHER -> Number(t)
Subset(x) == LET odds == TLCEval(Pick({1, 2, 5, 20})) IN TLCEval({s \in Ids : Chance(odds)})
Drawn(D) == TLCEval([s \in D |-> TLCEval(Value(Settings[s].type))])
\* an assignment as a list of pairs, in a drawn order of the names
RECURSIVE Pairs(_, _)
Pairs(over, D) == IF D = {} THEN <<>>
    ELSE LET s == TLCEval(Pick(D)) IN
         <<[s |-> s, v |-> over[s]]>>
         \o Pairs(over, D \ {s})
Note(op, more) == log' = Append(log, [op |-> op, result |-> result', held |-> held'] @@ more)
GInit == Init /\ log = <<>>
GLoad == \E D \in {Subset(held)} : \E over \in {Drawn(D)} :
            /\ Load(over)
            /\ Note("load", [pairs |-> Pairs(over, D), same |-> Chance(3), extra |-> Chance(6)])
GBad == \E kind \in {Pick(BadFiles)} : \E D \in {Subset(held)} : \E over \in {Drawn(D)} : \E b \in {Pick(Ids)} :
            /\ LoadBad(kind)
            /\ Note("bad", [kind |-> kind, pairs |-> Pairs(over, D),
                            bad |-> b])
GDefault == Default /\ Note("default", <<>>)
GSet == \E h \in {Pick(1..Len(held))} : \E s \in {Pick(Ids)} : \E v \in {Value(Settings[s].type)} :
            /\ Set(h, s, v)
            /\ Note("set", [h |-> h, pairs |-> <<[s |-> s, v |-> v]>>])
GElement == \E h \in {Pick(1..Len(held))} :
            \E s \in {Pick({t \in Ids : Settings[t].type \in ListTypes})} : \E v \in {Number(held)} :
            IF held[h][s] # <<>> /\ Chance(2)
            THEN \E i \in {Pick(1..Len(held[h][s]))} :
                 /\ SetElement(h, s, i, v)
                 /\ Note("element", [h |-> h, s |-> s, i |-> i, v |-> v])
            ELSE /\ AppendElement(h, s, v)
                 /\ Note("append", [h |-> h, s |-> s, v |-> v])
GNext == /\ Len(log) < Depth
         /\ \E d \in {Pick(1..12)} :
              CASE d \in 1..4 -> GLoad
                [] d \in 5..6 -> GBad
                [] d = 7 -> GDefault
                [] d \in 8..9 -> GSet
                [] OTHER -> GElement
GEmit == /\ Len(log) = Depth
         /\ CSVWrite("%1$s", <<ToJson([settings |-> Settings, log |-> log])>>, "prog.ndjson")
         /\ log' = Append(log, [op |-> "done"])
         /\ UNCHANGED vars
GSpec == GInit /\ [][GNext \/ GEmit]_<<vars, log>>
=============================================================================
