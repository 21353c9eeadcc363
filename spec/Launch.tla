------------------------------- MODULE Launch -------------------------------
(* A run of the program from its start to its exit, in any environment: the  *)
(* number of arguments, what the named configuration file is like, what the  *)
(* dataset files are like, which profiles are wanted and whether they can be *)
(* written. Each environment has one behaviour; its outcome is emitted and   *)
(* the real program must come to it.                                         *)
EXTENDS Integers, Sequences, TLC, CSV, Json
CONSTANTS Batches,   \* the numbers of batches considered
          Emitting
VARIABLES env,       \* [args, conf, train, test, cpu, mem, epochs, nb, tb]; nb, tb:
                     \* training batches of an epoch, batches of the last evaluation
          phase,     \* what comes next
          e,         \* epochs done
          built,     \* a network exists
          trained, evaluated,
          files,     \* profiles that have been opened
          code       \* exit code, -1: still running
vars == <<env, phase, e, built, trained, evaluated, files, code>>

Data == {"ok", "missing", "directory", "empty", "badheader"}
Bad == {"missing", "directory", "empty", "truncated", "mistyped", "trailing", "notobject"}
Wish == {"no", "yes", "blocked"}
NB == env.nb
TB == env.tb
Envs == [args : {1}, conf : {"ok"}, train : Data, test : Data, cpu : Wish, mem : Wish, epochs : 0..2, nb : {2}, tb : {2}]
        \cup [args : {1}, conf : {"ok"}, train : Data, test : Data, cpu : {"no"}, mem : {"no"}, epochs : {1}, nb : Batches, tb : Batches]
        \cup [args : {0, 2, 3}, conf : {"ok"}, train : {"ok"}, test : {"ok"}, cpu : Wish, mem : {"yes"}, epochs : {1}, nb : {2}, tb : {2}]
        \cup [args : {1}, conf : Bad, train : {"ok"}, test : {"ok"}, cpu : Wish, mem : {"yes"}, epochs : {1}, nb : {2}, tb : {2}]
Init == /\ env \in Envs /\ phase = "arguments" /\ e = 0 /\ built = FALSE
        /\ trained = 0 /\ evaluated = 0 /\ files = {} /\ code = -1

Refuse == phase' = "over" /\ code' = 1 /\ UNCHANGED <<env, e, built, trained, evaluated, files>>
Go(to) == phase' = to /\ UNCHANGED <<env, code>>
Arguments == phase = "arguments" /\
    IF env.args = 1 THEN Go("configuration") /\ UNCHANGED <<e, built, trained, evaluated, files>>
    ELSE Refuse
Configuration == phase = "configuration" /\
    IF env.conf = "ok" THEN Go("cpuprofile") /\ UNCHANGED <<e, built, trained, evaluated, files>>
    ELSE Refuse
Open(wish, name, to) ==
    IF wish = "blocked" THEN Refuse
    ELSE /\ files' = IF wish = "yes" THEN files \cup {name} ELSE files
         /\ Go(to) /\ UNCHANGED <<e, built, trained, evaluated>>
CpuProfile == phase = "cpuprofile" /\ Open(env.cpu, "cpu", "build")
Build == phase = "build" /\ built' = TRUE /\ Go(IF env.epochs = 0 THEN "memprofile" ELSE "train")
         /\ UNCHANGED <<e, trained, evaluated, files>>
Train == phase = "train" /\
    IF env.train = "ok" THEN trained' = trained + NB /\ Go("evaluate") /\ UNCHANGED <<e, built, evaluated, files>>
    ELSE Refuse
Evaluate == phase = "evaluate" /\
    IF env.test = "ok"
    THEN /\ evaluated' = evaluated + TB /\ e' = e + 1
         /\ Go(IF e + 1 = env.epochs THEN "memprofile" ELSE "train") /\ UNCHANGED <<built, trained, files>>
    ELSE Refuse
MemProfile == phase = "memprofile" /\ Open(env.mem, "mem", "finish")
Finish == phase = "finish" /\ phase' = "over" /\ code' = 0
          /\ UNCHANGED <<env, e, built, trained, evaluated, files>>
Outcome == [env |-> env, built |-> built, trained |-> trained, evaluated |-> evaluated,
            files |-> files, code |-> code]
Over == /\ phase = "over" /\ phase' = "told"
        /\ (IF Emitting THEN CSVWrite("%1$s", <<ToJson(Outcome)>>, "prog.ndjson") ELSE TRUE)
        /\ UNCHANGED <<env, e, built, trained, evaluated, files, code>>
Next == Arguments \/ Configuration \/ CpuProfile \/ Build \/ Train \/ Evaluate \/ MemProfile \/ Finish \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what a user relies on
Done == code # -1
Asked(w) == w = "yes"
\* success means that everything asked for was done
Honest == code = 0 =>
    /\ env.args = 1 /\ env.conf = "ok"
    /\ trained = env.epochs * NB /\ evaluated = env.epochs * TB
    /\ files = {f \in {"cpu", "mem"} : Asked(IF f = "cpu" THEN env.cpu ELSE env.mem)}
    /\ env.epochs > 0 => env.train = "ok" /\ env.test = "ok"
\* and everything that could be done succeeds
Able == Done /\ env.args = 1 /\ env.conf = "ok" /\ env.cpu # "blocked" /\ env.mem # "blocked"
        /\ (env.epochs = 0 \/ (env.train = "ok" /\ env.test = "ok")) => code = 0
\* a refused start leaves no trace
Harmless == Done /\ (env.args # 1 \/ env.conf # "ok" \/ env.cpu = "blocked") =>
                code # 0 /\ ~built /\ trained = 0 /\ evaluated = 0 /\ files = {}
NoData == /\ env.train # "ok" => trained = 0 /\ evaluated = 0
          /\ env.test # "ok" => evaluated = 0 /\ trained <= NB
OnlyAsked == /\ "cpu" \in files => Asked(env.cpu)
             /\ "mem" \in files => Asked(env.mem)
Order == evaluated > 0 => trained > 0 \/ NB = 0
Ends == <>Done
=============================================================================
