------------------------------- MODULE MCSize -------------------------------
(* Generates requests around the limit of what an onion can carry.           *)
EXTENDS OnionSize, TLC, Json

CONSTANT N

VARIABLE r

One(S) == RandomElement(S)
Enc == {0, 1, 16, 51, 86, 200, 252, 253, 300}
Sizes(n) == [i \in 1..n |-> One(Enc \ {0})]
\* A reply path may have hops without data.
Data(n) == [i \in 1..n |-> One(Enc)]

Shape ==
    LET blind == One({TRUE, FALSE})
        hops == One(1..16)
        direct == One({TRUE, FALSE})
    IN  [direct |-> direct, hops |-> IF direct THEN 1 ELSE hops,
         blind |-> IF blind THEN Sizes(One({1, 2, 3, 5, 8})) ELSE <<>>,
         rp |-> IF One(1..3) = 1 THEN Data(One(1..4)) ELSE <<>>,
         pl |-> <<>>]

WithLen(s, ts, n) == [s EXCEPT !.pl = <<[ts |-> ts, len |-> n]>>]

\* The largest value that fits, if any.
Limit(s, ts) ==
    IF ~Fits(WithLen(s, ts, 0)) THEN 0
    ELSE CHOOSE n \in 0..Room :
            Fits(WithLen(s, ts, n)) /\ ~Fits(WithLen(s, ts, n + 1))

Case ==
    LET s == Shape
        ts == One({1, 3, 5, 9})
        m == Limit(s, ts)
        d == One({0, 0, 1, 1, 2, 3, 5, 20})
        n == IF One({TRUE, FALSE}) THEN m + d ELSE IF m > d THEN m - d ELSE m
    IN  IF One(1..6) = 1 THEN s ELSE WithLen(s, ts, n)

MCInit == r = <<>>
MCNext ==
    /\ r = <<>> /\ r' = <<Case>>
    /\ PrintT(<<"SIZE", ToJson(r'[1])>>)
=============================================================================
