-------------------------------- MODULE Config ------------------------------
(* Configurations. A setting has a type and a built-in default; a file is a  *)
(* partial assignment of settings (or something that cannot be loaded). The  *)
(* values are plain numbers (for lists: sequences of numbers); the harness   *)
(* gives them the setting's type.                                            *)
EXTENDS Integers, Sequences
CONSTANT Settings      \* sequence of [name, type, default]
VARIABLES held,        \* the configurations in existence: held[1] is the one in force
          result       \* of the last operation: "ok", "error", "none"
vars == <<held, result>>
Ids == 1..Len(Settings)
Defaults == [s \in Ids |-> Settings[s].default]
ListTypes == {"ints", "floats"}
BadFiles == {"missing", "malformed", "illtyped"}

\* the meaning of a file: its settings over the defaults, whatever happened before
Meaning(over) == [s \in Ids |-> IF s \in DOMAIN over THEN over[s] ELSE Defaults[s]]

Init == held = <<Defaults>> /\ result = "none"
Load(over) == held' = Append(held, Meaning(over)) /\ result' = "ok"
LoadBad(kind) == kind \in BadFiles /\ held' = held /\ result' = "error"
Default == held' = Append(held, Defaults) /\ result' = "ok"
\* modifications by the holder
Set(h, s, v) == held' = [held EXCEPT ![h][s] = v] /\ result' = "none"
SetElement(h, s, i, v) ==
    /\ Settings[s].type \in ListTypes /\ i \in 1..Len(held[h][s])
    /\ held' = [held EXCEPT ![h][s][i] = v] /\ result' = "none"
AppendElement(h, s, v) ==
    /\ Settings[s].type \in ListTypes
    /\ held' = [held EXCEPT ![h][s] = Append(@, v)] /\ result' = "none"

\* ---- what a user relies on
\* nothing done to or for one configuration shows in another
Independent ==
    [][/\ Len(held') >= Len(held)
       /\ \E h \in 1..Len(held') : \A g \in 1..Len(held) : g = h \/ held'[g] = held[g]]_vars
\* loading leaves everything there was alone, the one in force included
LoadsAdd == [][result' \in {"ok", "error"} => SubSeq(held', 1, Len(held)) = held]_vars
ErrorsGiveNothing == [][result' = "error" => held' = held]_vars
=============================================================================
