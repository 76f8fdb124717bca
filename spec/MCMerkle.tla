------------------------------ MODULE MCMerkle ------------------------------
(* Two streams: same root exactly if they are the same but for signatures.    *)
(* And the shapes of the tree, to be used by the harness.                     *)
EXTENDS Merkle, TLC, Json

CONSTANTS Types, Vals, MaxLen, MaxShape

VARIABLES a, b, n
vars == <<a, b, n>>

Last(s) == IF s = <<>> THEN -1 ELSE s[Len(s)].t
More(s) == {Append(s, [t |-> t, v |-> v]) : t \in {x \in Types : x > Last(s)},
                                            v \in Vals}

Init == a = <<>> /\ b = <<>> /\ n = 0
Next ==
    \/ /\ n = 0 /\ Len(a) < MaxLen /\ a' \in More(a) /\ b = <<>>
       /\ UNCHANGED <<b, n>>
    \/ /\ n = 0 /\ Len(b) < MaxLen /\ b' \in More(b) /\ UNCHANGED <<a, n>>
    \/ /\ a = <<>> /\ b = <<>> /\ n < MaxShape /\ n' = n + 1
       /\ PrintT(<<"SHAPE", ToJson([n |-> n + 1, tree |-> Shape(n + 1)])>>)
       /\ UNCHANGED <<a, b>>

Injective == (Root(a) = Root(b)) <=> (NonSig(a) = NonSig(b))
ShapeOK ==
    n > 0 =>
        LET s == Shape(n)
            d == [i \in 1..n |-> DepthOf(s, i)]
        IN /\ s = Down(1, n)
           /\ \A i \in 1..n : d[i] >= 0
           /\ \A i \in 1..(n - 1) : d[i] >= d[i + 1]
           /\ \A i \in 1..n : d[i] <= d[n] + 8
=============================================================================
