------------------------------- MODULE Driver -------------------------------
(* The training program: epochs of whole batches read from the training     *)
(* file, test evaluations in between, rehash and rebuild flags, the accuracy *)
(* it reports, and how it ends. cfg.trainN/testN: records in the files (the  *)
(* r-th record is line r + 1); cfg.trainBad/testBad: the bad record, 0 for   *)
(* none, -1 for a file that cannot even be opened or whose header is bad.    *)
EXTENDS Integers, Sequences
VARIABLES cfg,
          e, i,             \* epoch, iterations done in it
          done,             \* batches predicted in the evaluation at this point
          correct, total,   \* of that evaluation so far
          told,             \* the evaluation at this point has given its report
          ended
vars == <<cfg, e, i, done, correct, total, told, ended>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
NB == cfg.totRecords \div cfg.batch
Range(from, to) == [k \in 1..Max(0, to - from + 1) |-> from + k - 1]
\* the k-th batch (from 1) of a file of n records
BatchOf(k, n) == Range((k - 1) * cfg.batch + 1, Min(k * cfg.batch, n))

\* ---- evaluations
Due(ee, ii) == IF ii = NB THEN TRUE ELSE ii > 0 /\ (ii + ee * NB) % cfg.stepsize = 0
Wanted(ee, ii) == IF ~Due(ee, ii) THEN 0
                  ELSE IF ii < NB THEN 20
                  ELSE IF ee = cfg.epochs - 1 THEN cfg.testRecords \div cfg.batch ELSE 50
\* the batches that have records
Need(ee, ii) == Min(Wanted(ee, ii), (cfg.testN + cfg.batch - 1) \div cfg.batch)
\* an evaluation runs into the bad record: after that many batches (-1: it does not)
TestStop(ee, ii) == IF ~Due(ee, ii) THEN -1
                    ELSE IF cfg.testBad = -1 THEN 0
                    ELSE IF cfg.testBad = 0 \/ (cfg.testBad - 1) \div cfg.batch >= Wanted(ee, ii) THEN -1
                    ELSE (cfg.testBad - 1) \div cfg.batch
Evaluated(ee, ii, d) == TestStop(ee, ii) = -1 /\ d >= Need(ee, ii)
\* an evaluation of anything reports before anything else happens
Told == Need(e, i) = 0 \/ told

\* ---- the point the program is at once nothing is left to do at (e, i)
Here == IF i = NB /\ Evaluated(e, i, done) /\ e + 1 < cfg.epochs
        THEN [e |-> e + 1, i |-> 0, moved |-> TRUE] ELSE [e |-> e, i |-> i, moved |-> FALSE]

Period(records) == Max(1, records \div cfg.batch)
Flag(records, iter) == cfg.mode \in {1, 4} /\ iter % Period(records) = Period(records) - 1
TrainStop == IF cfg.trainBad = 0 THEN -1 ELSE IF cfg.trainBad = -1 THEN 0
             ELSE (cfg.trainBad - 1) \div cfg.batch
CanTrain(h) == /\ ~ended /\ h.e < cfg.epochs /\ h.i < NB
               /\ (h.moved \/ Evaluated(h.e, h.i, done)) /\ Told

Init(c) == cfg = c /\ e = 0 /\ i = 0 /\ done = 0 /\ correct = 0 /\ total = 0 /\ told = FALSE /\ ended = FALSE
Train(iter, rehash, rebuild, recs) ==
    LET h == Here IN
    /\ (CanTrain(h) = TRUE)
    /\ (TrainStop # h.i /\ iter = h.e * NB + h.i) = TRUE
    /\ (recs = BatchOf(h.i + 1, cfg.trainN)) = TRUE
    /\ (rehash = Flag(cfg.rehash, iter) /\ rebuild = Flag(cfg.rebuild, iter)) = TRUE
    /\ e' = h.e /\ i' = h.i + 1 /\ done' = 0 /\ correct' = 0 /\ total' = 0 /\ told' = FALSE
    /\ UNCHANGED <<cfg, ended>>
\* the next batch of the evaluation due; right = number of hits in it
PredictAt(h, d, c, t, recs, right) ==
    /\ (~ended /\ h.e < cfg.epochs /\ Due(h.e, h.i) /\ (h.moved => Told)) = TRUE
    /\ (d < Need(h.e, h.i) /\ TestStop(h.e, h.i) # d) = TRUE
    /\ (recs = BatchOf(d + 1, cfg.testN)) = TRUE
    /\ (right \in 0..Len(recs)) = TRUE
    /\ (h.i = 0 /\ NB = 0 => cfg.trainBad # -1) = TRUE
    /\ e' = h.e /\ i' = h.i /\ done' = d + 1 /\ correct' = c + right /\ total' = t + Len(recs) /\ told' = FALSE
    /\ UNCHANGED <<cfg, ended>>
Predict(recs, right) ==
    LET h == Here IN
    IF h.moved THEN PredictAt(h, 0, 0, 0, recs, right)
               ELSE PredictAt(h, done, correct, total, recs, right)
\* a batch beyond the end of the test file: it may be left out
PredictNothing(right) == right = 0 /\ ~ended /\ (Due(e, i) = TRUE) /\ UNCHANGED vars

\* ---- reports (their accuracies are Accuracy.tla's concern)
\* an evaluation's report names the iterations trained so far
ReportIter(iter) ==
    /\ ~ended /\ told' = TRUE /\ UNCHANGED <<cfg, e, i, done, correct, total, ended>>
    /\ LET h == Here IN
       \/ (Evaluated(e, i, done) /\ Due(e, i) /\ iter = e * NB + i) = TRUE
       \* nothing to evaluate, or nothing to train either
       \/ (h.moved /\ Evaluated(h.e, h.i, 0) /\ Due(h.e, h.i) /\ iter = h.e * NB + h.i) = TRUE
ReportEpoch(k) == /\ ~ended /\ (k < cfg.epochs) = TRUE /\ (Here.moved => Told) = TRUE
                  /\ LET h == Here IN (h.e = k /\ h.i = 0 /\ (h.moved \/ done = 0)) = TRUE
                  /\ UNCHANGED vars

\* ---- the end
RECURSIVE NothingLeft(_)
NothingLeft(k) == k >= cfg.epochs \/ (NB = 0 /\ Evaluated(k, 0, 0) /\ NothingLeft(k + 1))
Finished == cfg.epochs = 0 \/ (cfg.trainBad # -1 /\ i = NB /\ Evaluated(e, i, done) /\ NothingLeft(e + 1))
\* where it has to stop, and the line to name (0: none in particular)
StopsAtTraining == LET h == Here IN
    \/ CanTrain(h) /\ TrainStop = h.i
    \/ NB = 0 /\ cfg.trainBad = -1 /\ done = 0 /\ e = 0
StopsAtTest == LET h == Here IN
    LET d == IF h.moved THEN 0 ELSE done IN
    h.e < cfg.epochs /\ Due(h.e, h.i) /\ TestStop(h.e, h.i) = d
Line == IF StopsAtTraining THEN Max(0, cfg.trainBad + 1) ELSE Max(0, cfg.testBad + 1)
ExitOK(code) == ~ended /\ Finished /\ (cfg.epochs = 0 \/ Told) /\ code = 0
ExitBad(code, lines) == /\ ~ended /\ cfg.epochs > 0 /\ (StopsAtTraining \/ StopsAtTest)
                        /\ code # 0 /\ (Line = 0 \/ Line \in lines)
Exit(code, lines) == /\ (ExitOK(code) \/ ExitBad(code, lines)) = TRUE
                     /\ ended' = TRUE /\ UNCHANGED <<cfg, e, i, done, correct, total, told>>
=============================================================================
