-------------------------- MODULE TracePermissions --------------------------
(* Validates what a real daemon reported and who was let through.             *)
EXTENDS Permissions, TraceLib

tvars == <<vars, ti, l>>
TInit == Init /\ TraceInit

E == Ev[l]
Elems(s) == {s[i] : i \in 1..Len(s)}

\* Exactly what is served is reported, as it is required.
Reported ==
    /\ Is("perms")
    /\ Elems(E.served) = Methods
    /\ {E.perms[i].meth : i \in 1..Len(E.perms)} = Methods
    /\ \A i \in 1..Len(E.perms) :
        Elems(E.perms[i].ops) = Report0[E.perms[i].meth]
    /\ UNCHANGED vars

Visible ==
    \/ Reported
    \/ Is("bake") /\ Bake([m |-> E.m, k |-> E.k, ops |-> Elems(E.ops),
                           cav |-> E.cav])
    \/ Is("revoke") /\ Revoke(E.k)
    \/ Is("lnd") /\ Lnd(E.r)
    \/ Is("start") /\ StartCall
    \/ Is("startret") /\ StartReturn(E.ok)
    \/ Is("stop") /\ Stop
    \/ Is("call") /\ Call(E.c, E.meth, Elems(E.req), E.m, E.form)
    \/ Is("ret") /\ Answer(E.c, E.r)
    \/ Is("quiet") /\ Rest

TNext == Visible \/ (More /\ Up /\ UNCHANGED <<ti, l>>)

TypeOKT == phase \in {"new", "starting", "up", "stopped"}
=============================================================================
