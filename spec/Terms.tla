-------------------------------- MODULE Terms -------------------------------
(* Real-valued behaviour is specified over an uninterpreted algebra. A term  *)
(* is a name (string), a literal "#n" or "#n/d", or a tuple <<op, args...>>  *)
(* with op among + - * / neg relu gate max exp sqrt pow. A specification     *)
(* action emits definitions [d |-> name, e |-> term] and expectations        *)
(* [x |-> observation, e |-> term]; sp.py interprets + and * over doubles    *)
(* and compares with what the real code showed. Which contribution goes      *)
(* where, when and how often is thus decided here.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

RECURSIVE Join(_, _)
Join(parts, k) == IF k > Len(parts) THEN ""
                  ELSE "/" \o ToString(parts[k]) \o Join(parts, k + 1)
\* A name: N("w", <<1, 2>>) = "w/1/2". Names starting with o are observations.
N(tag, parts) == tag \o Join(parts, 1)

Zero == "#0"
One == "#1"
Rat(n, d) == "#" \o ToString(n) \o "/" \o ToString(d)
Plus(a, b) == <<"+", a, b>>
Times(a, b) == <<"*", a, b>>
Minus(a, b) == <<"-", a, b>>
Over(a, b) == <<"/", a, b>>
SumOf(ts) == IF ts = <<>> THEN Zero ELSE <<"+">> \o ts

\* The elements of 0..n-1 with a property, in order.
Filter(n, Test(_)) == SelectSeq([k \in 1..n |-> k - 1], Test)
RECURSIVE Flat(_, _, _)
Flat(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                  ELSE LET m == (a + b) \div 2 IN Flat(ss, a, m) \o Flat(ss, m + 1, b)
\* Concatenation of the sequences of a sequence.
Concat(ss) == Flat(ss, 1, Len(ss))

Def(name, e) == [d |-> name, e |-> e]
Expect(obs, e) == [x |-> obs, e |-> e]
Emit(lines) == CSVWrite("%1$s", <<ToJson(lines)>>, "prog.ndjson")
=============================================================================
