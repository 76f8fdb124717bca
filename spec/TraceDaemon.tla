---------------------------- MODULE TraceDaemon ----------------------------
(* Validates the recorded life of a real daemon.                              *)
EXTENDS Daemon, TraceLib

TInit == Init /\ TraceInit

E == Ev[l]

Visible ==
    \/ Is("new") /\ New(E.conf, E.retries, E.cb, E.ok)
                    /\ (E.ok => E.net = Network(E.conf))
    \/ Is("start") /\ StartCall(E.c)
    \/ Is("startret") /\ StartReturn(E.c, E.ok)
    \/ Is("stop") /\ StopCall(E.c)
    \/ Is("stopret") /\ StopReturn(E.c, E.ok)
    \/ Is("dial") /\ Dial(E.t)
    \/ Is("tell") /\ Tell(E.r, E.t)
    \/ Is("conn") /\ Conn
    \/ Is("unconn") /\ Unconn
    \/ Is("sub") /\ Sub
    \/ Is("unsub") /\ Unsub
    \/ Is("lose") /\ Lose
    \/ Is("report") /\ Request
    \/ Is("call") /\ Call(E.c)
    \/ Is("ret") /\ Answer(E.c, E.r)
    \/ Is("quiet") /\ Rest(E.t)

TNext == Visible \/ (More /\ Internal /\ UNCHANGED <<ti, l>>)

TypeOKT == conns >= 0
=============================================================================
