------------------------------ MODULE DriverMC ------------------------------
(* All small configurations; ghosts count what happened.                     *)
EXTENDS Driver, FiniteSets, TLC
CONSTANTS MaxRecords
VARIABLES trained,   \* batches trained
          rehashes, rebuilds,
          evals,     \* iterations at which an evaluation has started
          reports,   \* the iterations named by reports
          code
gvars == <<cfg, e, i, done, correct, total, told, ended, trained, rehashes, rebuilds, evals, reports, code>>
Cfgs == [batch : 1..2, totRecords : 0..MaxRecords, testRecords : {1, 3}, epochs : 0..2, stepsize : 1..3,
         rehash : {0, 2, 3}, rebuild : {4}, mode : {1, 3},
         trainN : {MaxRecords}, testN : {0, 3}, trainBad : {0, -1, 1, 4}, testBad : {0, -1, 3}]
GInit == /\ \E c \in Cfgs : (c.testBad <= c.testN) /\ Init(c)
         /\ trained = 0 /\ rehashes = 0 /\ rebuilds = 0 /\ evals = {} /\ reports = <<>> /\ code = -1
GTrain == LET h == Here IN
    \E rehash, rebuild \in BOOLEAN :
      /\ Train(h.e * NB + h.i, rehash, rebuild, BatchOf(h.i + 1, cfg.trainN))
      /\ trained' = trained + 1
      /\ rehashes' = rehashes + (IF rehash THEN 1 ELSE 0)
      /\ rebuilds' = rebuilds + (IF rebuild THEN 1 ELSE 0)
      /\ UNCHANGED <<evals, reports, code>>
GPredict == LET h == Here IN
    \E d \in {IF h.moved THEN 0 ELSE done} :
      /\ \E right \in {0, 1} : Predict(BatchOf(d + 1, cfg.testN), right)
      /\ evals' = evals \cup {<<e', i'>>}
      /\ UNCHANGED <<trained, rehashes, rebuilds, reports, code>>
GTell == LET iter == e * NB + i IN
         /\ (Need(e, i) > 0 /\ ~told) = TRUE /\ ReportIter(iter) /\ reports' = Append(reports, iter)
         /\ UNCHANGED <<trained, rehashes, rebuilds, evals, code>>
GExit == \E c \in 0..1 : /\ Exit(c, {Line}) /\ code' = c
                         /\ UNCHANGED <<trained, rehashes, rebuilds, evals, reports>>
GNext == GTrain \/ GPredict \/ GTell \/ GExit
GSpec == GInit /\ [][GNext]_gvars /\ WF_gvars(GNext)
\* ---- what a user relies on
Counts == trained = e * NB + i
Rehashes == rehashes = (IF cfg.mode \in {1, 4} THEN trained \div Period(cfg.rehash) ELSE 0)
Rebuilds == rebuilds = (IF cfg.mode \in {1, 4} THEN trained \div Period(cfg.rebuild) ELSE 0)
WholeBatches == NB > 0 /\ i > 0 => cfg.batch * i <= cfg.totRecords
Complete == code = 0 =>
    /\ cfg.epochs > 0 => trained = cfg.epochs * NB
    /\ cfg.trainBad = 0 \/ cfg.epochs = 0 \/ (cfg.trainBad > 0 /\ cfg.trainBad > NB * cfg.batch)
    \* every evaluation that is due has happened (if there is anything to evaluate)
    /\ \A ee \in 0..(cfg.epochs - 1), ii \in 0..NB :
          Due(ee, ii) /\ Need(ee, ii) > 0 => <<ee, ii>> \in evals
\* every evaluation that has happened has given its report
Reported == code = 0 => /\ Len(reports) = Cardinality(evals)
                        /\ {reports[k] : k \in 1..Len(reports)} = {p[1] * NB + p[2] : p \in evals}
OnlyDue == \A p \in evals : Due(p[1], p[2])
NeverPastBad == /\ cfg.trainBad > 0 => cfg.batch * i < cfg.trainBad
                /\ cfg.trainBad = -1 => trained = 0
                /\ cfg.testBad = -1 => evals = {}
                /\ cfg.testBad > 0 => total < cfg.testBad
Accuracy == correct <= total /\ total <= cfg.testN
Ends == <>ended
\* exactly one way to go on, apart from the number of hits
NotBoth == (ENABLED GTrain => ~ENABLED GPredict) /\ (ENABLED GExit => ~ENABLED GTrain /\ ~ENABLED GPredict)
           /\ (ENABLED GTell => ~ENABLED GTrain /\ ~ENABLED GPredict /\ ~(ENABLED GExit))
GDone == ended
NoStuck == ENABLED GNext \/ ended
=============================================================================
