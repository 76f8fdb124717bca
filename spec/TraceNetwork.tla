---------------------------- MODULE TraceNetwork ----------------------------
(* Validates recorded behaviour of a network of real servers.                *)
EXTENDS Network, TraceLib

tvars == <<vars, ti, l>>

TInit == Init /\ TraceInit

E == Ev[l]

ERoute == Is("route") /\ Learn(E.id, E.segs, E.ed)
ESub == Is("sub") /\ Subscribe(E.n, E.c, E.t)
EGen ==
    /\ Is("gen") /\ E.r = "ok"
    /\ Generate(E.id, E.n, E.intro, E.path,
                {E.parts[i] : i \in 1..Len(E.parts)}, E.clear, E.ed)
ESend == Is("send") /\ Send(E.k, E.n, E.path, E.dest,
                            [pl |-> E.pl, rp |-> E.rp])

\* The message on the wire is the one that the specification expects.
Same(to, m, e) ==
    /\ e.to = to /\ e.ty
    /\ e.path = Visits(to, m)
    /\ e.pl = m.content.pl /\ e.rp = m.content.rp

EEmit ==
    /\ Is("wire")
    /\ \E s \in sends :
        /\ s.n = E.n /\ s.st = "new"
        /\ Same(s.to, s.msg, E) /\ Emit(s.k, E.ok, E.ed)
EForward ==
    /\ Is("wire")
    /\ out[E.n] # <<>>
    /\ Same(Head(out[E.n]).to, Head(out[E.n]).msg, E)
    /\ Head(out[E.n]).ed = E.ed
    /\ Forward(E.n, E.ok)
ERet == Is("sendret") /\ Return(E.k, E.ok)
EArrive == Is("arrive") /\ Arrive(E.i)
EHand ==
    /\ Is("hand")
    /\ todo[E.c] # <<>> /\ Head(todo[E.c]) = [v |-> E.v, rp |-> E.rp]
    /\ Hand(E.c)
EQuiet == Is("quiet") /\ Quiet /\ UNCHANGED vars

TNext == ERoute \/ ESub \/ EGen \/ ESend \/ EEmit \/ EForward \/ ERet
         \/ EArrive \/ EHand \/ EQuiet

\* Messages never get stuck in the specification: all arrive somewhere.
TypeOKT ==
    \A i \in 1..Len(flight) : CanPeel(flight[i].to, flight[i].msg)
=============================================================================
