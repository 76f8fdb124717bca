----------------------------- MODULE TraceRoute -----------------------------
(* Validates the answers of a real server that was asked for routes.          *)
EXTENDS Route, TraceLib

VARIABLE asked
TInit == asked = 0 /\ TraceInit

E == Ev[l]

Gen ==
    /\ Is("gen")
    /\ LET a == Answer(Set(E.req), E.list, E.chans, E.info)
       IN a.r = E.r /\ a.intro = E.intro
    /\ asked' = asked + 1

TNext == Gen
TypeOKT == asked >= 0
=============================================================================
