----------------------------- MODULE MinhashMC ------------------------------
(* The streaming implementation (a queue of k entries; a new entry drops the *)
(* smallest) keeps exactly Top, in whatever order the entries come; and the  *)
(* codes then only name top entries.                                         *)
EXTENDS Minhash
CONSTANTS N, K
VARIABLES todo, fed, queue
mvars == <<vars, todo, fed, queue>>
Init == /\ InitWith([nh |-> 2, probes |-> <<<<1, 0>>, <<0, 1>>>>])
        /\ todo \in SUBSET {<<i, v>> : i \in 0..(N - 1), v \in 1..N}
        /\ Cardinality({e[1] : e \in todo}) = Cardinality(todo)
        /\ Cardinality({e[2] : e \in todo}) = Cardinality(todo)
        /\ fed = <<>> /\ queue = {}
Least(q) == CHOOSE e \in q : \A f \in q : e[2] <= f[2]
Feed == \E e \in todo :
    /\ todo' = todo \ {e} /\ fed' = Append(fed, e)
    /\ LET q == queue \cup {e} IN
       queue' = IF Cardinality(q) > K THEN q \ {Least(q)} ELSE q
    /\ UNCHANGED vars
Next == Feed \/ (todo = {} /\ UNCHANGED mvars)
Spec == Init /\ [][Next]_mvars
KeepsTop == {e[1] : e \in queue} = Top(fed, K)
SameTop == \A k \in 0..(K + 1) : TopByValue(fed, k) = Top(fed, k)
PlainIsAll == Top(fed, 0) = {fed[j][1] : j \in 1..Len(fed)}
AnyMap == [1..N -> 0..1]
Sound == todo = {} => \A m \in AnyMap : \A i \in Bins :
    LET top == Top(fed, K) IN
    /\ Code(i, m, top) = CodeAt(i, Largest(m, top))
    /\ IF top = {} THEN Code(i, m, top) = NoCode
       ELSE /\ Code(i, m, top) \in top
            /\ \A x \in top : m[x + 1] = i - 1 => x <= Code(i, m, top)
=============================================================================
