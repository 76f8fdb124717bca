-------------------------- MODULE TraceLifecycle ---------------------------
(* Validates the recorded life of a real server.                             *)
EXTENDS Lifecycle, TraceLib

tvars == <<vars, ti, l>>

TInit == Init /\ TraceInit

E == Ev[l]

Visible ==
    \/ Is("start") /\ StartCall(E.c)
    \/ Is("startret") /\ StartReturn(E.c, E.ok)
    \/ Is("stop") /\ StopCall(E.c)
    \/ Is("stopret") /\ StopReturn(E.c, E.ok)
    \/ Is("ask") /\ Ask
    \/ Is("tell") /\ Tell(E.ok)
    \/ Is("open") /\ Open
    \/ Is("close") /\ Close
    \/ Is("call") /\ Call(E.c, E.op, E.valid)
    \/ Is("cancel") /\ Cancel(E.c)
    \/ Is("act") /\ \E x \in calls : E.c \in {0, x.c} /\ Act(x.c, E.op)
    \/ Is("offer") /\ Offer(E.c)
    \/ Is("deliver") /\ Deliver(E.c)
    \/ Is("ret") /\ Answer(E.c, E.r)
    \/ Is("quiet") /\ Rest

TNext == Visible \/ (More /\ Internal /\ UNCHANGED <<ti, l>>)

TypeOKT == streams \in 0..1
=============================================================================
