------------------------------ MODULE MCDaemon ------------------------------
(* Daemon with an environment of bounded activity: exhaustive checking and    *)
(* generation of schedules. Time stands still.                                *)
EXTENDS Daemon, TLC, Json

CONSTANTS Retries, MaxStarts, MaxStops, MaxCalls, Results, MaxLen

VARIABLES n, sched, over, hist
mcvars == <<vars, n, sched, over, hist>>

Plain == [opt |-> "", client |-> TRUE, version |-> <<0, 15, 0>>, wait |-> 0]

MCInit ==
    /\ Init
    /\ n = [start |-> 0, stop |-> 0, call |-> 0]
    /\ sched = <<>> /\ over = FALSE /\ hist = {}

Gen == MaxLen > 0
Room == ~Gen \/ Len(sched) < MaxLen
Note(r) == sched' = IF Gen THEN Append(sched, r) ELSE sched

Create ==
    /\ phase = "none"
    /\ \E k \in Retries, cb \in BOOLEAN :
        /\ New(Plain, k, cb, TRUE)
        /\ Note([a |-> "new", retries |-> k, cb |-> cb])
    /\ UNCHANGED <<n, over, hist>>

Env ==
    /\ ~over /\ Room /\ phase # "none"
    /\ \/ /\ n.start < MaxStarts /\ n' = [n EXCEPT !.start = @ + 1]
          /\ StartCall(n.start + 1)
          /\ Note([a |-> "start", c |-> n.start + 1])
       \/ /\ n.stop < MaxStops /\ n' = [n EXCEPT !.stop = @ + 1]
          /\ StopCall(n.stop + 1)
          /\ Note([a |-> "stop", c |-> n.stop + 1])
       \/ /\ n.call < MaxCalls /\ n' = [n EXCEPT !.call = @ + 1]
          /\ Call(n.call + 1)
          /\ Note([a |-> "call", c |-> n.call + 1])
       \/ /\ phase = "attempt"
          /\ \E r \in Results : Tell(r, 0) /\ Note([a |-> "tell", r |-> r])
          /\ UNCHANGED n
       \/ /\ stream = 1 /\ Lose /\ Note([a |-> "lose"]) /\ UNCHANGED n
    /\ UNCHANGED <<over, hist>>

Wait ==
    /\ Gen /\ ~over /\ Room /\ Quiet(0) /\ phase # "none"
    /\ (IF sched = <<>> THEN FALSE ELSE sched[Len(sched)].a # "quiet")
    /\ Note([a |-> "quiet"])
    /\ UNCHANGED <<vars, n, over, hist>>

Finish ==
    /\ Gen /\ ~over /\ Len(sched) = MaxLen /\ Quiet(0)
    /\ over' = TRUE
    /\ PrintT(<<"SCHED", ToJson([s |-> sched])>>)
    /\ UNCHANGED <<vars, n, sched, hist>>

H(x) == hist' = IF Gen THEN hist ELSE hist \cup {x}
Same == UNCHANGED hist

SystemStep ==
    /\ ~over
    /\ \/ (Internal \/ Request) /\ Same
       \/ Dial(0) /\ H(<<"dial", stop>>)
       \/ phase = "attempt" /\ conns = 0 /\ Conn /\ Same
       \/ phase \in {"trying", "failed", "attempt"} /\ Unconn /\ Same
       \/ stop # "no" /\ Unconn /\ Same
       \/ (Sub \/ Unsub) /\ Same
       \/ \E s \in starts, ok \in BOOLEAN :
            StartReturn(s.i, ok) /\ H(<<"start", s.i, ok>>)
       \/ \E s \in stops, ok \in BOOLEAN :
            StopReturn(s.i, ok) /\ H(<<"stop", s.i, ok>>)
       \/ \E c \in calls, r \in {"served", "Aborted"} : Answer(c, r) /\ Same
    /\ UNCHANGED <<n, sched, over>>

MCNext == Create \/ Env \/ Wait \/ Finish \/ SystemStep

---------------------------------------------------------------------------
\* C17: start and stop succeed at most once.
Once ==
    /\ Cardinality({h \in hist : h[1] = "start" /\ h[3] = TRUE}) <= 1
    /\ Cardinality({h \in hist : h[1] = "stop" /\ h[3] = TRUE}) <= 1

\* C17: start succeeds exactly when an attempt did, and nothing got in the way.
StartMeans ==
    /\ (\E h \in hist : h[1] = "start" /\ h[3] = TRUE) => served /\ att >= 1
    /\ served => conf.retries + 1 - att = left
    /\ Quiet(0) /\ n.start = 1 /\ stop = "no" /\ phase = "failed" =>
        (rpcok => att = conf.retries + 1)

\* C17: once stopped and at rest, nothing is left, not even a call.
NothingLeft ==
    Quiet(0) /\ stop = "done" /\ phase # "attempt" =>
        conns = 0 /\ stream = 0 /\ calls = {}

\* C17: no attempt begins once a stop is over, no start succeeds.
NoMore ==
    [][stop = "done" =>
        /\ ~(phase = "trying" /\ phase' = "dialing")
        /\ served' = served]_vars
=============================================================================
