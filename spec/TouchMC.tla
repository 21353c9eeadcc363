------------------------------- MODULE TouchMC ------------------------------
(* Touch agrees with Train: whichever of the neurons Touch lets a batch      *)
(* select are active, only parameters Touch allows get a gradient.           *)
EXTENDS TrainMC
CONSTANT Nets
VARIABLE tnet   \* the network as Touch sees it
T == INSTANCE Touch WITH net <- tnet
tmvars == <<mvars, tnet>>
SetOf(s) == {s[k] : k \in 1..Len(s)}
Sizes == {<<2>>, <<2, 2>>, <<2, 2, 3>>}
Prev(sz, la) == IF la = 1 THEN 2 ELSE sz[la - 1]
Res(a) == IF a < 0 THEN a + P0 ELSE a
Small == {-1, 0, 1}
Sels(last) == IF last THEN {"all", "ids", "any", "top"} ELSE {"all", "ids"}
Layers(sz, la) ==
    [n : {sz[la]}, w : [1..sz[la] -> [1..Prev(sz, la) -> Small]], b : [1..sz[la] -> Small],
     sel : Sels(la = Len(sz)), ids : {s \in Picks(sz[la]) : \A k \in 2..Len(s) : s[k - 1] < s[k]},
     places : 0..sz[la]]
Inputs == {s \in [1..2 -> [1..2 -> {-1, 1, 2}]] : TRUE}
ParOf(n) ==
    LET wn(la, j, i) == n.layers[la].w[j + 1][i + 1]
        ws == {<<la, j, i>> \in (1..3) \X (0..2) \X (0..2) :
                 la <= Len(n.layers) /\ (IF la > Len(n.layers) THEN FALSE ELSE
                    j < n.layers[la].n /\ i < Prev([x \in 1..Len(n.layers) |-> n.layers[x].n], la))}
        bs == {<<la, j>> \in (1..3) \X (0..2) :
                 IF la > Len(n.layers) THEN FALSE ELSE j < n.layers[la].n}
        key(s) == W(1, 0, s[1], s[2], s[3])
    IN [x \in {key(s) : s \in ws} |->
          LET s == CHOOSE s \in ws : key(s) = x IN Res(wn(s[1], s[2], s[3]))]
       @@ [x \in {B(1, 0, s[1], s[2]) : s \in bs} |->
          LET s == CHOOSE s \in bs : B(1, 0, s[1], s[2]) = x IN Res(n.layers[s[1]].b[s[2] + 1])]

\* What an example's selections may be: layer by layer, given what the
\* selected neurons below put out.
RECURSIVE Chosen(_, _, _, _)
Chosen(n, la, in, labels) ==
    LET layer == n.layers[la]
        Depth0 == Len(n.layers)
        lab == IF la = Depth0 THEN SetOf(labels) ELSE {}
        sets == CASE layer.sel = "all" -> {0..(layer.n - 1)}
                  [] layer.sel = "ids" -> {lab \cup SetOf(layer.ids)}
                  [] layer.sel = "any" -> IF layer.places = 0 THEN {{}}
                        ELSE {s \in SUBSET (0..(layer.n - 1)) : lab \subseteq s /\
                                Cardinality(s) <= IF layer.places > Cardinality(lab)
                                                  THEN layer.places ELSE Cardinality(lab)}
                  [] layer.sel = "top" -> IF layer.places = 0 THEN {{}}
                        ELSE LET score(j) == T!Score(layer, j, in)
                                 room == IF layer.places > Cardinality(lab)
                                         THEN layer.places - Cardinality(lab) ELSE 0
                                 free == (0..(layer.n - 1)) \ lab
                             IN {lab \cup s : s \in {s \in SUBSET free :
                                   /\ Cardinality(s) = IF room < Cardinality(free) THEN room
                                                       ELSE Cardinality(free)
                                   /\ \A a \in s : \A c \in free \ s : score(a) >= score(c)}}
        seq(s) == SelectSeq(From0(layer.n), LAMBDA j : j \in s)
    IN IF la = Depth0 THEN {<<seq(s)>> : s \in sets}
       ELSE UNION {{<<seq(s)>> \o r : r \in
              Chosen(n, la + 1, [k \in 1..Cardinality(s) |->
                   <<seq(s)[k], T!Relu(T!Score(layer, seq(s)[k], in))>>], labels)} : s \in sets}

TInit ==
    /\ \E sz \in Sizes :
         \E ls \in RandomSubset(Nets, [1..Len(sz) -> {0}] \X (1..Nets)) :
           tnet = [layers |-> [la \in 1..Len(sz) |-> RandomElement(RandomSubset(1, Layers(sz, la)))]]
    /\ net = [layers |-> [la \in 1..Len(tnet.layers) |->
                [n |-> tnet.layers[la].n,
                 prev |-> IF la = 1 THEN 2 ELSE tnet.layers[la - 1].n]], batch |-> Batch, adam |-> FALSE]
    /\ \E x \in RandomSubset(2, Inputs), ls \in RandomSubset(2, [1..Batch -> Picks(tnet.layers[Len(tnet.layers)].n)]),
          ix \in RandomSubset(2, [1..Batch -> Picks(2)]) :
         /\ par = ParOf(tnet) @@ [s \in {N("x", <<1, 1, e, k>>) : e \in 1..Batch, k \in 1..2} |->
                      Res(LET p == CHOOSE p \in (1..Batch) \X (1..2) : N("x", <<1, 1, p[1], p[2]>>) = s
                          IN x[p[1]][p[2]])]
         /\ exs \in [1..Batch -> {}] \cup
              {[e \in 1..Batch |-> [ix |-> ix[e], labels |-> ls[e], x |-> x[e],
                                   active |-> RandomElement(Chosen(tnet, 1,
                                      [k \in 1..Len(ix[e]) |-> <<ix[e][k], x[e][k]>>], ls[e]))]]}
    /\ handles = <<>> /\ rate = 1 /\ done = FALSE
TNext == \/ ~done /\ done' = TRUE /\ UNCHANGED <<net, handles, par, exs, rate, tnet>>
         \/ done /\ UNCHANGED tmvars
TSpec == TInit /\ [][TNext]_tmvars

Changed(env) ==
    [la \in 1..Depth |->
       LET row(j) == <<j, IF env[GradBias(la, j)][1] # 0 THEN 1 ELSE 0,
                       SelectSeq(From0(net.layers[la].prev),
                                 LAMBDA i : env[GradName(la, j, i)][1] # 0)>>
       IN SelectSeq([k \in 1..net.layers[la].n |-> row(k - 1)], LAMBDA r : r[2] = 1 \/ r[3] # <<>>)]
Within ==
    done =>
    LET all == TLCEval(Run(Start(""), Forwards \o Errors \o UpdateDefs(1, 0, 1, exs), 1))
        seen == [e \in 1..Batch |-> [x |-> [k \in 1..Len(exs[e].ix) |-> <<exs[e].ix[k], exs[e].x[k]>>],
                                     labels |-> exs[e].labels]]
    IN T!BatchOK(seen, TLCEval(Changed(all)))
=============================================================================
