------------------------------ MODULE MCInvReq ------------------------------
(* All offers and requests over a few numbers.                                *)
EXTENDS InvReq, TLC, Json

CONSTANTS N, MaxAsks, Gen, Chains, Feats, Keys, Notes

VARIABLE asks, over
vars == <<offer, made, asks, over>>

Offers == [min : 0..N, lo : 0..N, hi : 0..N, chain : Chains, feat : Feats]

Init == offer \in Offers /\ made = <<>> /\ asks = <<>> /\ over = FALSE
DoAsk ==
    /\ Len(asks) < MaxAsks
    /\ \E amt \in 0..N, q \in 0..N, key \in Keys, note \in Notes :
        /\ Ask(amt, q, key, note)
        /\ asks' = Append(asks, [amt |-> amt, q |-> q, key |-> key,
                                 note |-> note])
    /\ over' = over
Tell ==
    /\ Gen /\ Len(asks) = MaxAsks /\ ~over /\ over' = TRUE
    /\ PrintT(<<"ASK", ToJson([offer |-> offer, asks |-> asks])>>)
    /\ UNCHANGED <<offer, made, asks>>
Next == DoAsk \/ Tell

Last == made[Len(made)]
A == asks[Len(asks)]

\* The quantities that fit, said as a set.
Fit(o) ==
    IF {o.lo, o.hi} = {0} THEN {0}
    ELSE (IF o.lo = 0 THEN 1 ELSE o.lo)..(IF o.hi = 0 THEN N ELSE o.hi)

Right ==
    asks # <<>> =>
        /\ (Last # None) = (A.q \in Fit(offer) /\ ~(A.amt < offer.min))
        /\ Last # None =>
            /\ Last.amt >= offer.min
            /\ (offer.lo > 0 \/ offer.hi > 0) = (Last.q > 0)
            /\ Last.chain = offer.chain /\ Last.feat = offer.feat
\* An inverted range sells nothing.
Inverted == offer.lo > offer.hi /\ offer.hi > 0 =>
                \A i \in 1..Len(made) : made[i] = None
\* What was asked before doesn't matter.
Stateless == \A i, j \in 1..Len(asks) : asks[i] = asks[j] => made[i] = made[j]
=============================================================================
