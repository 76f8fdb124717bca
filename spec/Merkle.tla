------------------------------- MODULE Merkle -------------------------------
(* The signature root of BOLT 12 over the records of a TLV stream, with       *)
(* hashing as a free constructor: two roots are the same exactly when they    *)
(* are built in the same way from the same records.                           *)
(*                                                                            *)
(* A record is [t |-> type, v |-> value]. A tree is <<i>> for the pair of     *)
(* leaves of the i-th record, and <<left, right>> otherwise.                  *)
EXTENDS Integers, Sequences, FiniteSets

IsSig(r) == r.t >= 240 /\ r.t <= 1000
NonSig(recs) == SelectSeq(recs, LAMBDA r : ~IsSig(r))

\* Adjacent pairs are combined, one level at a time; who has no sibling moves
\* up.
Pairs(s) ==
    [i \in 1..((Len(s) + 1) \div 2) |->
        IF 2 * i <= Len(s) THEN <<s[2 * i - 1], s[2 * i]>> ELSE s[2 * i - 1]]
RECURSIVE Up(_)
Up(s) == IF Len(s) = 1 THEN s[1] ELSE Up(Pairs(s))
Shape(n) == Up([i \in 1..n |-> <<i>>])

\* The same tree top down: the left part is the largest complete tree that
\* leaves something for the right part.
RECURSIVE Complete(_, _)
Complete(n, p) == IF 2 * p < n THEN Complete(n, 2 * p) ELSE p
RECURSIVE Down(_, _)
Down(lo, n) ==
    IF n = 1 THEN <<lo>>
    ELSE LET p == Complete(n, 1)
         IN <<Down(lo, p), Down(lo + p, n - p)>>

RECURSIVE DepthOf(_, _)
DepthOf(tr, i) ==
    \* Depth of leaf i, or -1 if it isn't there.
    IF Len(tr) = 1 THEN (IF tr[1] = i THEN 0 ELSE -1)
    ELSE LET a == DepthOf(tr[1], i)
             b == DepthOf(tr[2], i)
         IN IF a >= 0 THEN a + 1 ELSE IF b >= 0 THEN b + 1 ELSE -1

\* Lesser hash first: the order of two children says nothing.
Branch(a, b) == [h |-> "LnBranch", kids |-> {a, b}]
LeafPair(all, r) == Branch([h |-> "LnLeaf", of |-> <<r>>],
                           [h |-> "LnAll", of |-> <<all, r>>])

RECURSIVE Eval(_, _)
Eval(tr, recs) ==
    IF Len(tr) = 1 THEN LeafPair(recs, recs[tr[1]])
    ELSE Branch(Eval(tr[1], recs), Eval(tr[2], recs))

NoRoot == [h |-> "none"]
Root(recs) ==
    LET s == NonSig(recs)
    IN IF s = <<>> THEN NoRoot ELSE Eval(Shape(Len(s)), s)
=============================================================================
