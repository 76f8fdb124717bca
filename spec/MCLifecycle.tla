---------------------------- MODULE MCLifecycle ----------------------------
(* Lifecycle with an environment of bounded activity: exhaustive checking and *)
(* generation of schedules.                                                   *)
EXTENDS Lifecycle, TLC, Json

CONSTANTS MaxStarts, MaxStops, MaxCalls, MaxCancels, MaxMsgs, Ops, MaxLen

VARIABLES n, sched, over, hist
\* n: budget used; hist: successful starts and stops, answers.
mcvars == <<vars, n, sched, over, hist>>

MCInit ==
    /\ Init
    /\ n = [start |-> 0, stop |-> 0, call |-> 0, cancel |-> 0, msg |-> 0]
    /\ sched = <<>> /\ over = FALSE /\ hist = {}

Gen == MaxLen > 0
Room == ~Gen \/ Len(sched) < MaxLen
Note(r) == sched' = IF Gen THEN Append(sched, r) ELSE sched

Env ==
    /\ ~over /\ Room
    /\ \/ /\ n.start < MaxStarts /\ n' = [n EXCEPT !.start = @ + 1]
          /\ StartCall(n.start + 1)
          /\ Note([a |-> "start", c |-> n.start + 1])
       \/ /\ n.stop < MaxStops /\ n' = [n EXCEPT !.stop = @ + 1]
          /\ StopCall(n.stop + 1)
          /\ Note([a |-> "stop", c |-> n.stop + 1])
          /\ Gen => Len(sched) > 2
       \/ /\ n.call < MaxCalls /\ n' = [n EXCEPT !.call = @ + 1]
          /\ \E op \in Ops, v \in BOOLEAN :
                /\ op = "route" => v
                /\ Call(n.call + 1, op, v)
                /\ Note([a |-> "call", c |-> n.call + 1, op |-> op,
                         valid |-> v])
       \/ /\ n.cancel < MaxCancels /\ n' = [n EXCEPT !.cancel = @ + 1]
          /\ \E x \in calls :
                /\ ~x.cancelled /\ Cancel(x.c)
                /\ Note([a |-> "cancel", c |-> x.c])
       \/ /\ n.msg < MaxMsgs /\ n' = [n EXCEPT !.msg = @ + 1]
          /\ streams = 1 /\ phase = "ready"
          /\ \E x \in calls :
                /\ x.op = "sub" /\ x.valid /\ Offer(x.c)
                /\ Note([a |-> "msg", c |-> x.c])
       \/ /\ phase = "asked"
          /\ \E ok \in BOOLEAN :
                /\ Tell(ok) /\ Note([a |-> "tell", ok |-> ok])
          /\ UNCHANGED n
    /\ UNCHANGED <<over, hist>>

Wait ==
    /\ Gen /\ ~over /\ Room /\ Quiet
    /\ (IF sched = <<>> THEN FALSE ELSE sched[Len(sched)].a # "quiet")
    /\ Note([a |-> "quiet"]) /\ Rest
    /\ UNCHANGED <<n, over, hist>>

Finish ==
    /\ Gen /\ ~over /\ Len(sched) = MaxLen /\ Quiet
    /\ over' = TRUE
    /\ PrintT(<<"SCHED", ToJson([s |-> sched])>>)
    /\ UNCHANGED <<vars, n, sched, hist>>

H(x) == hist' = IF Gen THEN hist ELSE hist \cup {x}
Same == UNCHANGED hist

SystemStep ==
    /\ ~over
    /\ \/ (Internal \/ Ask \/ Open \/ Close) /\ Same
       \/ \E s \in starts, ok \in BOOLEAN :
            StartReturn(s.i, ok) /\ H(<<"start", s.i, ok>>)
       \/ \E s \in stops, ok \in BOOLEAN :
            StopReturn(s.i, ok) /\ H(<<"stop", s.i, ok>>)
       \/ \E x \in calls : Act(x.c, x.op) /\ x.op \in {"send", "route"} /\ Same
       \/ \E x \in calls : Deliver(x.c) /\ Same
       \/ \E x \in calls : \E r \in Answers(x) :
            Answer(x.c, r) /\ H(<<"answer", x.c, r>>)
    /\ UNCHANGED <<n, sched, over>>

MCNext == Env \/ Wait \/ Finish \/ SystemStep

---------------------------------------------------------------------------
\* C16: start and stop succeed at most once.
Once ==
    /\ Cardinality({h \in hist : h[1] = "start" /\ h[3] = TRUE}) <= 1
    /\ Cardinality({h \in hist : h[1] = "stop" /\ h[3] = TRUE}) <= 1

\* C16: nothing is answered before the server is ready, but by giving up.
NotEarly ==
    phase # "ready" =>
        \A h \in hist : h[1] = "answer" => h[3] \in {"Unavailable", "Aborted"}

\* C16: once stopped and at rest, nothing hangs, nothing runs, and no start
\* succeeds any more.
NothingLeft == Quiet /\ stop = "done" => calls = {} /\ streams = 0
NoStart == [][stop = "done" /\ phase # "ready" => phase' # "ready"]_vars

\* A state at rest has no step that has to happen.
QuietMeans ==
    Quiet => ~ENABLED (\/ Internal \/ Ask
                       \/ \E s \in starts, ok \in BOOLEAN : StartReturn(s.i, ok)
                       \/ \E s \in stops, ok \in BOOLEAN : StopReturn(s.i, ok))
             \/ (stop # "no" /\ phase = "asked")

---------------------------------------------------------------------------
\* Liveness: lnd answers, and the parts of the server go on by themselves.
Own(A) == ~over /\ A /\ UNCHANGED <<n, sched, over>>
Answering ==
    \E x \in calls : \E r \in Answers(x) :
        Answer(x.c, r) /\ H(<<"answer", x.c, r>>)
Starting ==
    \E s \in starts, ok \in BOOLEAN :
        StartReturn(s.i, ok) /\ H(<<"start", s.i, ok>>)
Ending ==
    \E s \in stops, ok \in BOOLEAN :
        StopReturn(s.i, ok) /\ H(<<"stop", s.i, ok>>)
MCFair ==
    /\ MCInit /\ [][MCNext]_mcvars
    /\ WF_mcvars(Own((Internal \/ Ask) /\ Same))
    /\ WF_mcvars(Own((\E x \in calls : Act(x.c, x.op)) /\ Same))
    /\ WF_mcvars(Own(Answering)) /\ WF_mcvars(Own(Starting))
    /\ WF_mcvars(Own(Ending))
    /\ WF_mcvars(Own((\E ok \in BOOLEAN : Tell(ok)) /\ Same))

\* C16: starts and stops return, and so does every call of a server that is
\* stopped, and every call but subscriptions of one that is ready.
StartsReturn ==
    \A i \in 1..MaxStarts :
        (\E s \in starts : s.i = i /\ s.st # "over") ~>
        ~(\E s \in starts : s.i = i /\ s.st # "over")
StopsReturn ==
    \A i \in 1..MaxStops :
        (\E s \in stops : s.i = i /\ s.st # "over") ~>
        ~(\E s \in stops : s.i = i /\ s.st # "over")
CallsReturn ==
    \A c \in 1..MaxCalls :
        (\E x \in calls : x.c = c /\
            (stop # "no" \/ x.cancelled \/ (phase = "ready" /\ x.op # "sub")))
        ~> ~(\E x \in calls : x.c = c)
=============================================================================
