------------------------------- MODULE InvReq -------------------------------
(* Requests for invoices against the terms of an offer. Amounts and           *)
(* quantities are small numbers; the harness has the real ones, in the same   *)
(* order, zero being zero.                                                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    offer,  \* [min, lo, hi, chain, feat]: the terms, the rest to be copied
    made    \* the requests that were made for it

ivars == <<offer, made>>

QuantityOK(o, q) ==
    IF o.lo = 0 /\ o.hi = 0 THEN q = 0
    ELSE /\ q >= 1
         /\ o.lo # 0 => q >= o.lo
         /\ o.hi # 0 => q <= o.hi
Terms(o, amt, q) == amt >= o.min /\ QuantityOK(o, q)

\* The request that is made, "-" for what isn't there.
Request(o, amt, q, key, note) ==
    [offer |-> "root", chain |-> o.chain, feat |-> o.feat, amt |-> amt,
     q |-> q, key |-> key, note |-> note]

None == [offer |-> "none"]

Ask(amt, q, key, note) ==
    /\ made' = Append(made, IF Terms(offer, amt, q)
                            THEN Request(offer, amt, q, key, note) ELSE None)
    /\ offer' = offer
=============================================================================
