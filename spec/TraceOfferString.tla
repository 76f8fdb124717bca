-------------------------- MODULE TraceOfferString --------------------------
(* Validates what real code made of strings.                                  *)
EXTENDS OfferString, TraceLib

VARIABLE asked
TInit == asked = 0 /\ TraceInit

E == Ev[l]

\* E.lib, E.rpc: "offer" (accepted, with the contents that were encoded),
\* "other" (accepted as something else), "error"
Decode ==
    /\ Is("decode")
    /\ LET r == IF Accepts(E.str, E.hrp, E.data) THEN "offer" ELSE "error"
       IN E.lib = r /\ E.rpc = r
    /\ asked' = asked + 1

TNext == Decode
TypeOKT == asked >= 0
=============================================================================
