------------------------------- MODULE TrainMC ------------------------------
(* The gradients Train prescribes are the derivative of the loss: the terms  *)
(* are interpreted over dual numbers on a finite field (exp: any function    *)
(* with values other than 0 that is its own derivative; the guard against    *)
(* division by zero left out), the loss is written down on its own, and      *)
(* every parameter is varied in turn.                                        *)
EXTENDS Train, Randomization
CONSTANTS Draws, Batch
VARIABLES par, exs, rate, done
mvars == <<net, handles, par, exs, rate, done>>
P0 == 101
Mod(x) == x % P0
Inverse == [a \in 1..(P0 - 1) |-> CHOOSE b \in 1..(P0 - 1) : (a * b) % P0 = 1]
Exp == [a \in 0..(P0 - 1) |-> 1 + ((a * a * 7 + 5 * a + 3) % (P0 - 1))]
Pos(a) == a \in 1..(P0 \div 2)
Mid(a) == IF a > P0 \div 2 THEN a - P0 ELSE a

\* dual numbers <<a, b>> = a + b eps
Add(x, y) == <<Mod(x[1] + y[1]), Mod(x[2] + y[2])>>
Neg(x) == <<Mod(P0 - x[1]), Mod(P0 - x[2])>>
Mul(x, y) == <<Mod(x[1] * y[1]), Mod(x[1] * y[2] + x[2] * y[1])>>
\* of 1/0 nothing is expected (NoZero keeps it out)
Recip(x) == IF x[1] = 0 THEN <<0, 0>>
            ELSE LET i == Inverse[x[1]] IN <<i, Mod(P0 - Mod(x[2] * Mod(i * i)))>>
EpsName == "#1/10000000"
Literals == ("#0" :> <<0, 0>>) @@ ("#1" :> <<1, 0>>) @@ (EpsName :> <<0, 0>>)
            @@ [s \in {Rat(k, 1) : k \in 1..3} |-> <<CHOOSE k \in 1..3 : s = Rat(k, 1), 0>>]
            @@ [s \in {Rat(1, k) : k \in 2..3} |-> <<Inverse[CHOOSE k \in 1..3 : s = Rat(1, k)], 0>>]
IsName(e) == SubSeq(ToString(e), 1, 2) # "<<"
RECURSIVE Val(_, _), Fold(_, _, _, _)
Fold(env, e, k, op) ==
    IF k = Len(e) THEN Val(env, e[k])
    ELSE LET a == TLCEval(Val(env, e[k]))
             b == TLCEval(Fold(env, e, k + 1, op))
         IN CASE op = "+" -> Add(a, b) [] op = "*" -> Mul(a, b)
              [] op = "max" -> IF Mid(a[1]) >= Mid(b[1]) THEN a ELSE b
Val(env, e) ==
    IF IsName(e) THEN env[e]
    ELSE CASE e[1] \in {"+", "*", "max"} -> Fold(env, e, 2, e[1])
           [] e[1] = "-" -> Add(TLCEval(Val(env, e[2])), TLCEval(Neg(TLCEval(Val(env, e[3])))))
           [] e[1] = "/" -> Mul(TLCEval(Val(env, e[2])), TLCEval(Recip(TLCEval(Val(env, e[3])))))
           [] e[1] = "relu" -> LET x == TLCEval(Val(env, e[2])) IN IF Pos(x[1]) THEN x ELSE <<0, 0>>
           [] e[1] = "gate" -> IF Pos(Val(env, e[2])[1]) THEN Val(env, e[3]) ELSE <<0, 0>>
           [] e[1] = "exp" -> LET x == TLCEval(Val(env, e[2]))
                              IN <<Exp[x[1]], Mod(Exp[x[1]] * x[2])>>
RECURSIVE Run(_, _, _)
Run(env, defs, k) == IF k > Len(defs) THEN env
                     ELSE LET v == TLCEval(Val(env, defs[k].e))
                      IN Run(TLCEval((defs[k].d :> v) @@ env), defs, k + 1)

\* ---- the network: a chain of layers, parameters and inputs at large
WNames == UNION {UNION {{W(1, 0, la, j, i) : i \in 0..(net.layers[la].prev - 1)}
                        : j \in 0..(net.layers[la].n - 1)} : la \in 1..Depth}
BNames == UNION {{B(1, 0, la, j) : j \in 0..(net.layers[la].n - 1)} : la \in 1..Depth}
XNames == UNION {{N("x", <<1, 1, e, k>>) : k \in 1..Len(exs[e].ix)} : e \in 1..Len(exs)}
Start(theta) ==
    [s \in DOMAIN par |-> <<par[s], IF s = theta THEN 1 ELSE 0>>]
    @@ [s \in {RateName(1, 1)} |-> <<rate, 0>>] @@ Literals

Forwards == Each(LAMBDA e : ForwardDefs(1, 0, 1, e, exs[e]), Upto(Len(exs)))
Errors == Each(LAMBDA e : ErrorDefs(1, 0, 1, e, exs[e]), Upto(Len(exs)))

\* The loss on its own: the mean over the batch of -log of the labels'
\* probabilities, each with its share. Its derivative: p'/p.
LossSlope(env) ==
    LET one(e) == LET ex == exs[e]
                      lab(k) == LET p == env[P(1, 1, e, ex.labels[k])]
                                IN Mod(p[2] * Inverse[p[1]])
                      RECURSIVE S(_)
                      S(k) == IF k = 0 THEN 0 ELSE Mod(lab(k) + S(k - 1))
                  IN Mod(S(Len(ex.labels)) * Inverse[Len(ex.labels)])
        RECURSIVE T(_)
        T(e) == IF e = 0 THEN 0 ELSE Mod(one(e) + T(e - 1))
    IN Mod(T(Len(exs)) * Inverse[net.batch])
NoZero(env) == \A e \in 1..Len(exs) : env[NormName(1, 1, e)][1] # 0

GradName(la, j, i) == N("g", <<1, 1, la, j, i>>)
GradBias(la, j) == N("gb", <<1, 1, la, j>>)
Derivative ==
    LET fw == TLCEval(Forwards)
        all == TLCEval(Run(Start(""), fw \o Errors \o UpdateDefs(1, 0, 1, exs), 1))
        slope(theta) == LossSlope(TLCEval(Run(Start(theta), fw, 1)))
    IN done /\ NoZero(all) =>
        \A la \in 1..Depth : \A j \in 0..(net.layers[la].n - 1) :
           /\ \A i \in 0..(net.layers[la].prev - 1) :
                 /\ all[GradName(la, j, i)][1] = slope(W(1, 0, la, j, i))
                 /\ all[W(1, 1, la, j, i)][1] =
                      Mod(par[W(1, 0, la, j, i)] + rate * all[GradName(la, j, i)][1])
           /\ all[GradBias(la, j)][1] = slope(B(1, 0, la, j))
\* The output errors of an example add up to nothing.
Balanced ==
    LET all == TLCEval(Run(Start(""), Forwards \o Errors, 1))
        RECURSIVE S(_, _)
        S(e, js) == IF js = {} THEN 0
                    ELSE LET j == CHOOSE j \in js : TRUE
                         IN Mod(all[D(1, 1, e, Depth, j)][1] + S(e, js \ {j}))
    IN done /\ NoZero(all) => \A e \in 1..Len(exs) :
         S(e, {exs[e].active[Depth][k] : k \in 1..Len(exs[e].active[Depth])}) = 0

Shapes == {<<[n |-> 3, prev |-> 2]>>, <<[n |-> 2, prev |-> 2], [n |-> 2, prev |-> 2]>>,
           <<[n |-> 2, prev |-> 1], [n |-> 2, prev |-> 2], [n |-> 3, prev |-> 2]>>}
\* sequences without repetition over 0..n-1
Picks(n) == UNION {{s \in [1..k -> 0..(n - 1)] : \A a, b \in 1..k : a # b => s[a] # s[b]} : k \in 0..n}
Examples(layers) ==
    LET D0 == Len(layers)
        acts == {f \in [1..D0 -> UNION {Picks(layers[la].n) : la \in 1..D0}] :
                   \A la \in 1..D0 : f[la] \in Picks(layers[la].n)}
    IN {ex \in [ix : Picks(layers[1].prev), labels : Picks(layers[D0].n) \ {<<>>}, active : acts] :
          \A k \in 1..Len(ex.labels) : Has(ex.active[D0], ex.labels[k])}
Init == /\ \E ls \in Shapes :
             /\ net = [layers |-> ls, batch |-> Batch, adam |-> FALSE]
             /\ \E es \in RandomSubset(Draws, [1..Batch -> Examples(ls)]) : exs = es
        /\ handles = <<>> /\ done = FALSE
        /\ rate \in {1, 3}
        /\ par \in RandomSubset(2, [WNames \cup BNames \cup XNames -> 0..(P0 - 1)])
Next == \/ ~done /\ done' = TRUE /\ UNCHANGED <<net, handles, par, exs, rate>>
        \/ done /\ UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
=============================================================================
