---------------------------- MODULE MCMessenger ----------------------------
(* Messenger with an environment of bounded activity, for exhaustive         *)
(* checking, and (Gen) as generator of schedules for the real code.          *)
EXTENDS Messenger, TLC, Json

CONSTANTS
    MaxCalls,    \* number of (de)registration calls
    MaxMsgs,     \* number of messages offered
    MaxFails,    \* number of stream failures
    MaxStops,    \* number of Stop calls
    MaxStarts,
    MsgSet,      \* "small", "full"
    TypeSet,     \* types used in calls
    MaxLen,      \* length limit of the recorded schedule
    GenId        \* tag that is printed with schedules

VARIABLES
    nc, nm, nf, ns, nst,   \* budget used
    subres,                \* result of subscribing, fixed in advance
    sched,                 \* the environment's steps (generator only)
    over                   \* the schedule is complete (generator only)

mcvars == <<vars, nc, nm, nf, ns, nst, subres, sched, over>>

Pl(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], v |-> "v"]]

M(i, kind, on, ts) == [id |-> i, kind |-> kind, on |-> on, pl |-> Pl(ts)]

\* Message templates: shape only, identity is added when they are offered.
Shapes ==
    IF MsgSet = "small"
    THEN {<<"ours", <<1>>>>, <<"ours", <<1, 2>>>>, <<"fwd", <<>>>>,
          <<"drop", <<>>>>}
    ELSE {<<"ours", <<>>>>, <<"ours", <<1>>>>, <<"ours", <<2>>>>,
          <<"ours", <<3>>>>, <<"ours", <<1, 2>>>>, <<"ours", <<1, 3>>>>,
          <<"ours", <<2, 3>>>>, <<"ours", <<1, 2, 3>>>>,
          <<"ours", <<1, 2, 3, 4>>>>,
          <<"fwd", <<>>>>, <<"drop", <<>>>>}

MCInit ==
    /\ Init
    /\ nc = 0 /\ nm = 0 /\ nf = 0 /\ ns = 0 /\ nst = 0
    /\ subres \in IF MaxFails > 0 THEN BOOLEAN ELSE {TRUE}
    /\ sched = <<>> /\ over = FALSE

Note(r) == sched' = IF MaxLen = 0 THEN sched ELSE Append(sched, r)

Room == MaxLen = 0 \/ Len(sched) < MaxLen

\* First start neither concurrent with nor after a stop.
StartOk == nst > 0 \/ ns = 0
StopOk == (\A x \in calls : x.op # "start") /\ (MaxLen > 0 => nst > 0)

\* Generated schedules don't linger before the start.
Focus == nst > 0 \/ Len(sched) < 2

Env ==
    /\ ~over /\ Room
    /\ \/ /\ nc < MaxCalls /\ nc' = nc + 1 /\ Focus
          /\ \E op \in {"reg", "dereg"}, t \in TypeSet :
                /\ Call(nc + 1, op, t)
                /\ Note([a |-> "call", op |-> op, c |-> nc + 1, t |-> t])
          /\ UNCHANGED <<nm, nf, ns, nst>>
       \/ /\ nst < MaxStarts /\ StartOk /\ nst' = nst + 1
          /\ Call(100 + nst, "start", 0)
          /\ Note([a |-> "call", op |-> "start", c |-> 100 + nst, t |-> 0])
          /\ UNCHANGED <<nc, nm, nf, ns>>
       \/ /\ ns < MaxStops /\ StopOk /\ ns' = ns + 1
          /\ Call(200 + ns, "stop", 0)
          /\ Note([a |-> "call", op |-> "stop", c |-> 200 + ns, t |-> 0])
          /\ UNCHANGED <<nc, nm, nf, nst>>
       \/ /\ nm < MaxMsgs /\ nf = 0 /\ nm' = nm + 1 /\ Focus
          /\ \/ \E s \in Shapes :
                /\ Offer(M(nm + 1, s[1], nm + 1, s[2]))
                /\ Note([a |-> "msg", m |-> nm + 1, kind |-> s[1],
                         pl |-> s[2], of |-> 0])
             \/ \E o \in 1..nm, s \in Shapes :
                \* A copy of message o: same onion, same contents. Which
                \* shape o has doesn't matter to the spec, as long as o is
                \* in seen by then; schedules also have copies of messages
                \* that weren't taken yet.
                /\ s[1] # "drop"
                /\ o \in seen \/ MaxLen > 0
                /\ Offer(M(nm + 1, s[1], o, s[2]))
                /\ Note([a |-> "msg", m |-> nm + 1, kind |-> "replay",
                         pl |-> s[2], of |-> o])
          /\ UNCHANGED <<nc, nf, ns, nst>>
       \/ /\ nf < MaxFails /\ nf' = nf + 1 /\ subres /\ Focus
          /\ Offer(Fail)
          /\ Note([a |-> "fail"])
          /\ UNCHANGED <<nc, nm, ns, nst>>
       \/ /\ \E ok \in BOOLEAN :
                /\ HandlerReturn(ok)
                /\ Note([a |-> "rel", r |-> IF ok THEN "ok" ELSE "err"])
          /\ UNCHANGED <<nc, nm, nf, ns, nst>>
       \/ /\ RelayReturn
          /\ \E r \in {"ok", "err"} : Note([a |-> "rel", r |-> r])
          /\ UNCHANGED <<nc, nm, nf, ns, nst>>
    /\ UNCHANGED <<subres, over>>

\* In generated schedules the environment may wait for quiescence.
Wait ==
    /\ MaxLen > 0 /\ ~over /\ Room /\ Quiet /\ Focus
    /\ (IF sched = <<>> THEN TRUE ELSE sched[Len(sched)].a # "quiet")
    /\ Note([a |-> "quiet"])
    /\ UNCHANGED <<vars, nc, nm, nf, ns, nst, subres, over>>

Finish ==
    /\ MaxLen > 0 /\ ~over /\ Len(sched) = MaxLen /\ Quiet
    /\ over' = TRUE
    /\ PrintT(<<GenId, ToJson([sub |-> subres, s |-> sched])>>)
    /\ UNCHANGED <<vars, nc, nm, nf, ns, nst, subres, sched>>

SystemStep ==
    /\ ~over
    /\ \/ Internal
       \/ Subscribe(subres)
       \/ \E r \in reg : HandlerEnter(r.h)
       \/ RelayEnter \/ Callback
       \/ \E x \in calls : \E r \in Results(x) : Return(x.c, r)
    /\ UNCHANGED <<nc, nm, nf, ns, nst, subres, sched, over>>

MCNext == Env \/ Wait \/ Finish \/ SystemStep

\* Liveness: handlers and relays return, the messenger isn't blocked.
WorkReturns ==
    /\ (\E ok \in BOOLEAN : HandlerReturn(ok)) \/ RelayReturn
    /\ UNCHANGED <<nc, nm, nf, ns, nst, subres, sched, over>>
MCFair == /\ MCInit /\ [][MCNext]_mcvars
          /\ WF_mcvars(SystemStep) /\ WF_mcvars(WorkReturns)

\* C07: a call never hangs.
CallsReturn ==
    \A c \in (1..MaxCalls) \cup (100..(100 + MaxStarts))
                \cup (200..(200 + MaxStops)) :
        (\E x \in calls : x.c = c) ~> ~(\E x \in calls : x.c = c)

\* C08: the loss of the stream is reported, unless a stop was requested.
FailureReported ==
    ((nf > 0 \/ ~subres) /\ started) ~> (cbs = 1 \/ quit)

\* C04, C05: what arrives is dealt with, unless the messenger ends before.
AllTaken == (started /\ stream # <<>>) ~>
                (stream = <<>> \/ loop \in {"failing", "exited"})
StopEnds == quit /\ started ~> loop = "exited"

\* C08: never reported without reason; C07: a stop isn't a failure.
NoFalseReport == cbs > 0 => (nf > 0 \/ ~subres)

\* C07: a completed stop leaves nothing running, ever.
StopIsFinal == [][loop = "exited" => loop' = "exited" /\ cur' = <<>>]_mcvars
=============================================================================
