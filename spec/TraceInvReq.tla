---------------------------- MODULE TraceInvReq ----------------------------
(* Validates requests that real code made for decoded offers.                 *)
EXTENDS InvReq, TraceLib

E == Ev[l]

Nothing == [min |-> 0, lo |-> 0, hi |-> 0, chain |-> "-", feat |-> "-"]
TInit == offer = Nothing /\ made = <<>> /\ TraceInit

Offer == Is("offer") /\ offer = Nothing /\ offer' = E.offer /\ made' = made

Asked ==
    /\ Is("ask")
    /\ Ask(E.amt, E.q, E.key, E.note)
    /\ LET r == made'[Len(made')]
       IN /\ E.ok = (r # None)
          /\ E.ok => /\ E.req = r     \* the request itself
                     /\ E.dec = r     \* and once encoded and decoded
                     /\ E.root        \* same root, that of its records
                     /\ E.signed      \* and what is signed is that

\* Nobody has to decode an offer that sells nothing.
Refused ==
    /\ Is("refused") /\ E.offer.hi > 0 /\ E.offer.lo > E.offer.hi
    /\ UNCHANGED ivars

\* The offer is still what it was.
Again == Is("again") /\ E.offer = offer /\ UNCHANGED ivars

TNext == Offer \/ Refused \/ Asked \/ Again
TypeOKT == Len(made) >= 0
=============================================================================
