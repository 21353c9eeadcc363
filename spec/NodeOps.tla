------------------------------- MODULE NodeOps ------------------------------
(* Neurons reached through handles. Every operation runs under an owner; if  *)
(* that is not the handle's own, a new handle results and the old one stays  *)
(* for ever what it was. Values are terms (Terms.tla). TLC draws behaviours  *)
(* in simulation mode; the harness replays them on real neurons.             *)
(*                                                                           *)
(* Lineage 0 is the neuron under study, lineages 1..P those of the layer     *)
(* below (P weights each, S slots each).                                     *)
EXTENDS Terms
CONSTANTS P, S, Steps, Forks
VARIABLES kind,   \* [adam, softmax]
          hs,     \* sequence of handles
          log     \* operations with their programs
vars == <<kind, hs, log>>

Idx == 1..P
Slots == 1..S
Idle == [on |-> FALSE, act |-> Zero, delta |-> Zero]
New(k) == [lineage |-> k, owner |-> 0, past |-> {}, frozen |-> FALSE,
           w |-> [i \in Idx |-> N("w", <<0, k, i>>)], mw |-> [i \in Idx |-> N("w", <<0, k, i>>)],
           b |-> N("b", <<0, k>>), mirb |-> N("b", <<0, k>>),
           t |-> [i \in Idx |-> Zero], tb |-> Zero,
           m |-> [i \in Idx |-> N("m", <<0, k, i>>)], v |-> [i \in Idx |-> N("v", <<0, k, i>>)],
           mb |-> Zero, vb |-> Zero,
           slots |-> [s \in Slots |-> Idle]]

\* ---- what can be seen of handle h (a record) as number n after step q
O(tag, q, n, rest) == N("o" \o tag, <<0, q, n>> \o rest)
Upto(n) == [k \in 1..n |-> k]
Seq1(f(_), n) == [k \in 1..n |-> f(k)]
Shows(q, n, h) ==
    LET w(i) == Expect(O("w", q, n, <<i>>), h.w[i])
        mw(i) == Expect(O("mw", q, n, <<i>>), h.mw[i])
        t(i) == Expect(O("t", q, n, <<i>>), h.t[i])
        m(i) == Expect(O("m", q, n, <<i>>), h.m[i])
        v(i) == Expect(O("v", q, n, <<i>>), h.v[i])
        act(s) == Expect(O("act", q, n, <<s>>), IF h.slots[s].on THEN h.slots[s].act ELSE Zero)
        err(s) == Expect(O("err", q, n, <<s>>), h.slots[s].delta)
    IN Seq1(w, P) \o <<Expect(O("b", q, n, <<>>), h.b)>> \o Seq1(act, S) \o Seq1(err, S)
       \o IF kind.adam
          THEN Seq1(t, P) \o Seq1(m, P) \o Seq1(v, P)
               \o <<Expect(O("tb", q, n, <<>>), h.tb), Expect(O("mb", q, n, <<>>), h.mb),
                    Expect(O("vb", q, n, <<>>), h.vb)>>
          ELSE Seq1(mw, P) \o <<Expect(O("mirb", q, n, <<>>), h.mirb)>>
Same(q, n) == [same |-> N("o", <<0, q, n>>), as |-> N("o", <<0, q - 1, n>>)]

Init ==
    /\ kind \in [adam : BOOLEAN, softmax : BOOLEAN]
    /\ hs = [k \in 1..(P + 1) |-> New(k - 1)]
    /\ log = <<>>
Q == Len(log) + 1
Const(k) == N("c", <<Q, k>>)
T(tag, k) == N(tag, <<Q, k>>)

\* ---- handles
\* The handle of an operation on h under owner o with the new values val.
OwnerOK(h, o) == IF o = hs[h].owner THEN ~hs[h].frozen ELSE o \notin hs[h].past
Put(table, h, o, val) ==
    IF o = table[h].owner THEN [table EXCEPT ![h] = val]
    ELSE Append([table EXCEPT ![h].frozen = TRUE],
                [val EXCEPT !.owner = o, !.past = @ \cup {table[h].owner}, !.frozen = FALSE])
Ret(table, h, o) == IF o = table[h].owner THEN h ELSE Len(table) + 1

\* Record an operation: its arguments, definitions, the handles it touched.
Record(entry, defs, new, touched) ==
    LET shows(n) == IF n \in touched THEN Shows(Q, n, new[n])
                    ELSE IF n <= Len(hs) THEN <<Same(Q, n)>> ELSE <<>>
    IN /\ hs' = new
       /\ log' = Append(log, [entry EXCEPT !.prog = defs \o Concat(Seq1(shows, Len(new)))])
       /\ UNCHANGED kind
Entry(op, h, o, s) == [op |-> op, h |-> h, o |-> o, s |-> s, ret |-> 0, panic |-> FALSE,
                       in |-> <<>>, labels |-> <<>>, prevs |-> <<>>, prets |-> <<>>,
                       field |-> "", i |-> 0, prog |-> <<>>]
\* one handle changed to val
Single(e, h, o, val, defs) ==
    LET new == TLCEval(Put(hs, h, o, val))
        ret == Ret(hs, h, o)
    IN Record([e EXCEPT !.ret = ret], defs, new, {ret})
Refused(e) == Record([e EXCEPT !.panic = TRUE, !.ret = e.h], <<>>, hs, {})

\* ---- operations
Activate(h, o, s, ids) ==   \* inputs: constants Const(k) at weights ids[k]
    LET z == SumOf([k \in 1..Len(ids) |-> Times(hs[h].w[ids[k]], Const(k))] \o <<hs[h].b>>)
        a == T("a", 0)
        slot == [on |-> TRUE, act |-> a, delta |-> hs[h].slots[s].delta]
    IN /\ (hs[h].slots[s].on => hs[h].slots[s].delta = Zero)
       /\ Single([Entry("activate", h, o, s) EXCEPT !.in = ids], h, o,
                 [hs[h] EXCEPT !.slots[s] = slot],
                 <<Def(T("z", 0), z),
                   Def(a, IF kind.softmax THEN T("z", 0) ELSE <<"relu", T("z", 0)>>),
                   Expect(O("ret", Q, 0, <<>>), a)>>)
\* an inactive neuron refuses error and gradients
Increment(h, o, s) ==
    LET e == Entry("increment", h, o, s) sl == hs[h].slots[s] IN
    IF ~sl.on THEN Refused(e)
    ELSE Single(e, h, o, [hs[h] EXCEPT !.slots[s].delta = T("d", 0)],
                <<Def(T("d", 0), Plus(sl.delta, <<"gate", sl.act, Const(1)>>))>>)
Stats(h, o, s, labels) ==
    LET e == [Entry("stats", h, o, s) EXCEPT !.labels = labels]
        sl == hs[h].slots[s]
        hit == \E k \in 1..Len(labels) : labels[k] = hs[h].lineage
    IN IF ~sl.on THEN Refused(e)
       ELSE Single(e, h, o, [hs[h] EXCEPT !.slots[s] =
                               [on |-> TRUE, act |-> T("a", 0), delta |-> T("d", 0)]],
                   <<Def(T("a", 0), Over(sl.act, Plus(Const(1), "#1/10000000"))),
                     Def(T("d", 0), Over(Minus(IF hit THEN Rat(1, Len(labels)) ELSE Zero, T("a", 0)),
                                         Rat(S, 1)))>>)

\* the accumulators after taking, for each k, delta * contrib[k] at ids[k]
RECURSIVE Taken(_, _, _, _)
Taken(i, ids, terms, k) ==
    IF k > Len(ids) THEN <<>>
    ELSE (IF ids[k] = i THEN <<terms[k]>> ELSE <<>>) \o Taken(i, ids, terms, k + 1)
Rate == Const(0)
Gathered(h, s, ids, terms) ==
    LET val == hs[h] d == val.slots[s].delta
        sum(i) == SumOf(Taken(i, ids, terms, 1))
        hit == {ids[k] : k \in 1..Len(ids)}
        tdef(i) == Def(T("t", i), Plus(val.t[i], Times(d, sum(i))))
        mdef(i) == Def(T("mw", i), Plus(val.mw[i], Times(Rate, Times(d, sum(i)))))
    IN IF kind.adam
       THEN [val |-> [val EXCEPT !.t = [i \in Idx |-> T("t", i)],
                                 !.tb = T("tb", 0), !.slots[s] = Idle],
             defs |-> Seq1(tdef, P) \o <<Def(T("tb", 0), Plus(val.tb, d))>>]
       ELSE [val |-> [val EXCEPT !.mw = [i \in Idx |-> T("mw", i)],
                                 !.mirb = T("mirb", 0), !.slots[s] = Idle],
             defs |-> Seq1(mdef, P) \o <<Def(T("mirb", 0), Plus(val.mirb, Times(Rate, d)))>>]
BackFirst(h, o, s, ids) ==
    LET e == [Entry("first", h, o, s) EXCEPT !.in = ids] IN
    IF ~hs[h].slots[s].on THEN Refused(e)
    ELSE LET g == Gathered(h, s, ids, [k \in 1..Len(ids) |-> Const(k)])
         IN Single(e, h, o, g.val, g.defs)
\* prevs: a handle per lineage below; ids: distinct, those listed as active
Back(h, o, s, prevs, ids) ==
    LET e == [Entry("back", h, o, s) EXCEPT !.in = ids, !.prevs = prevs]
        sl == hs[h].slots[s]
    IN IF ~sl.on THEN Refused(e)
       ELSE LET g == Gathered(h, s, ids,
                        [k \in 1..Len(ids) |-> hs[prevs[ids[k]]].slots[s].act])
                d(k) == T("e", ids[k])
                pdef(k) == Def(d(k), Plus(hs[prevs[ids[k]]].slots[s].delta,
                                <<"gate", hs[prevs[ids[k]]].slots[s].act,
                                  Times(sl.delta, hs[h].w[ids[k]])>>))
                first == TLCEval(Put(hs, h, o, g.val))
                rec[k \in 0..Len(ids)] ==
                    IF k = 0 THEN [table |-> first, rets |-> prevs]
                    ELSE LET p == prevs[ids[k]] tb == rec[k - 1].table
                         IN [table |-> Put(tb, p, o, [tb[p] EXCEPT !.slots[s].delta = d(k)]),
                             rets |-> [rec[k - 1].rets EXCEPT ![ids[k]] = Ret(tb, p, o)]]
                end == TLCEval(rec[Len(ids)])
                ret == Ret(hs, h, o)
            IN /\ \A k \in 1..Len(ids) : hs[prevs[ids[k]]].slots[s].on
               /\ \A k \in 1..Len(ids) : OwnerOK(prevs[ids[k]], o)
               /\ Record([e EXCEPT !.ret = ret, !.prets = end.rets], g.defs \o Seq1(pdef, Len(ids)),
                         end.table, {ret} \cup {end.rets[ids[k]] : k \in 1..Len(ids)})
SetAct(h, o, s) ==
    Single(Entry("setact", h, o, s), h, o, [hs[h] EXCEPT !.slots[s].act = Const(1)], <<>>)
Fields == IF kind.adam THEN {"t", "m", "v", "tb", "mb", "vb", "b"} ELSE {"b"}
SetField(h, o, f, i) ==
    Single([Entry("set", h, o, 1) EXCEPT !.field = f, !.i = i], h, o,
           CASE f = "t" -> [hs[h] EXCEPT !.t[i] = Const(1)]
             [] f = "m" -> [hs[h] EXCEPT !.m[i] = Const(1)]
             [] f = "v" -> [hs[h] EXCEPT !.v[i] = Const(1)]
             [] f = "tb" -> [hs[h] EXCEPT !.tb = Const(1)]
             [] f = "mb" -> [hs[h] EXCEPT !.mb = Const(1)]
             [] f = "vb" -> [hs[h] EXCEPT !.vb = Const(1)]
             [] f = "b" -> [hs[h] EXCEPT !.b = Const(1)], <<>>)
Perturb(h, o, i) ==
    Single([Entry("perturb", h, o, 1) EXCEPT !.i = i], h, o, [hs[h] EXCEPT !.w[i] = T("w", i)],
           <<Def(T("w", i), Plus(hs[h].w[i], Const(1))), Expect(O("ret", Q, 0, <<>>), T("w", i))>>)
\* plain gradient descent: the accumulated parameters become current
Adopt(h, o) ==
    /\ ~kind.adam
    /\ Single(Entry("adopt", h, o, 1), h, o, [hs[h] EXCEPT !.w = hs[h].mw, !.b = hs[h].mirb], <<>>)
\* all parameters given anew
Renew(h, o) ==
    Single([Entry("renew", h, o, 1) EXCEPT !.i = hs[h].lineage], h, o,
           [hs[h] EXCEPT !.w = [i \in Idx |-> Const(i)], !.mw = [i \in Idx |-> Const(i)],
                         !.b = Const(P + 1), !.mirb = Const(P + 1),
                         !.t = [i \in Idx |-> Zero],
                         !.m = [i \in Idx |-> Const(P + 1 + i)],
                         !.v = [i \in Idx |-> Const(2 * P + 1 + i)],
                         !.slots = [s \in Slots |-> Idle]], <<>>)

\* ---- random behaviours
Pick(X) == RandomElement(X)
\* a list of n different weights out of X after those of q
RECURSIVE Draw(_, _, _)
Chosen(q, X, n, x) == Draw(Append(q, x), X \ {x}, n - 1)
Draw(q, X, n) == IF n = 0 THEN q ELSE Chosen(q, X, n, TLCEval(Pick(X)))
Down(n) == [k \in 1..n |-> n - k]
Kinds == {"activate1", "activate2", "activate3", "activate4", "increment1", "increment2", "stats",
          "back1", "back2", "back3", "first1", "first2", "setact", "set1", "set2", "perturb",
          "adopt", "renew"}
\* handles and slots where an operation has something to work on
Ripe(k) ==
    {x \in (1..Len(hs)) \X Slots :
        LET sl == hs[x[1]].slots[x[2]]
        IN CASE k \in {"back1", "back2", "back3"} -> sl.on /\ sl.delta # Zero /\ hs[x[1]].lineage = 0
             [] k \in {"first1", "first2"} -> sl.on /\ sl.delta # Zero
             [] k \in {"increment1", "increment2", "stats", "setact"} -> sl.on
             [] OTHER -> FALSE}
Place(k) == LET ripe == TLCEval(Ripe(k))
            IN IF ripe # {} /\ Pick(1..2) = 1 THEN Pick(ripe)
               ELSE <<Pick(1..Len(hs)), Pick(Slots)>>
Step ==
    /\ Len(log) < Steps
    /\ \E k \in {Pick(Kinds)} : \E at \in {Place(k)} :
       \E h \in {at[1]}, s \in {at[2]}, i \in {Pick(Idx)},
          fresh \in {Forks /\ Pick(1..3) = 1}, ids \in {TLCEval(Draw(<<>>, Idx, Pick(0..P)))}, f \in {Pick(Fields)},
          labels \in {Pick({<<>>, <<0>>, <<1, 0>>, <<2>>, <<1, 2>>, <<2, 1, 0>>, Down(50), Down(300)})},
          again \in {Pick(1..6)} :
       LET more == IF ids = <<>> THEN ids  \* an input may be listed more than once
                   ELSE CASE again = 1 -> <<ids[1]>> \o ids
                          [] again = 2 -> Append(ids, ids[1])
                          [] OTHER -> ids
           o == IF hs[h].frozen \/ fresh THEN 100 + Q ELSE hs[h].owner
       IN CASE k \in {"activate1", "activate2", "activate3", "activate4"} -> Activate(h, o, s, more)
            [] k \in {"increment1", "increment2"} -> Increment(h, o, s)
            [] k = "stats" -> Stats(h, o, s, labels)
            [] k \in {"back1", "back2", "back3"} ->
                 \E prevs \in {TLCEval([n \in Idx |-> Pick({m \in 1..Len(hs) : hs[m].lineage = n})])} :
                    LET on2 == SelectSeq(ids, LAMBDA n : hs[prevs[n]].slots[s].on
                                                         /\ OwnerOK(prevs[n], o))
                    IN hs[h].lineage = 0 /\ Back(h, o, s, prevs, on2)
            [] k \in {"first1", "first2"} -> BackFirst(h, o, s, more)
            [] k = "setact" -> SetAct(h, o, s)
            [] k \in {"set1", "set2"} -> SetField(h, o, f, i)
            [] k = "perturb" -> Perturb(h, o, i)
            [] k = "adopt" -> Adopt(h, o)
            [] k = "renew" -> Renew(h, o)
\* a draw that is not possible: draw again
Retry == Len(log) < Steps /\ UNCHANGED vars
Finish ==
    /\ Len(log) = Steps /\ hs # <<>>
    /\ Emit([kind |-> kind, p |-> P, s |-> S,
             start |-> Concat([n \in 1..(P + 1) |-> Shows(0, n, New(n - 1))]), ops |-> log])
    /\ hs' = <<>> /\ UNCHANGED <<kind, log>>
Next == Step \/ Retry \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
