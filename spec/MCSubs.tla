------------------------------- MODULE MCSubs -------------------------------
(* Subs with an environment of bounded activity: exhaustive checking and      *)
(* generation of schedules.                                                   *)
EXTENDS Subs, TLC, Json

CONSTANTS MaxSubs, MaxMsgs, MaxCancels, MaxStops, MaxBreaks, TypeSet, MaxLen,
          Full

VARIABLES n, sched, over, hist
\* n: budget used: [s, m, c, b]; hist: registrations, messages, hand-overs and
\* ends in the order in which they happened.
mcvars == <<vars, n, sched, over, hist>>

Pl(ts, i) == [k \in 1..Len(ts) |-> [t |-> ts[k], v |-> <<i, ts[k]>>]]
Shapes == IF Full THEN {<<1>>, <<2>>, <<1, 2>>, <<1, 3>>, <<2, 3>>,
                        <<1, 2, 3>>, <<>>}
                  ELSE {<<1>>, <<1, 2>>}

MCInit ==
    /\ Init /\ n = [s |-> 0, m |-> 0, c |-> 0, b |-> 0]
    /\ sched = <<>> /\ over = FALSE /\ hist = <<>>

Gen == MaxLen > 0
Room == ~Gen \/ Len(sched) < MaxLen
Note(r) == sched' = IF Gen THEN Append(sched, r) ELSE sched

Regs(S) == {s.c : s \in {x \in S : x.reg}}

\* The history variable follows from what changed.
Hist ==
    hist' = IF Gen THEN hist ELSE
        LET new == Regs(subs') \ Regs(subs)
            gone == Regs(subs) \ Regs(subs')
            took == stream # <<>> /\ Len(stream') < Len(stream)
            given == {c \in Regs(subs) \cap Regs(subs') :
                        \E a \in subs, b \in subs' :
                            a.c = c /\ b.c = c /\ Len(b.q) > Len(a.q)}
            rec(k, S) == IF S = {} THEN <<>>
                         ELSE <<[k |-> k, c |-> CHOOSE c \in S : TRUE,
                                 m |-> IF Idle THEN 0 ELSE cur[1].id]>>
        IN hist \o rec("reg", new) \o rec("gone", gone) \o rec("push", given)
             \o (IF took THEN <<[k |-> "take", c |-> 0,
                                 m |-> Head(stream).id]>> ELSE <<>>)

Env ==
    /\ ~over /\ Room
    /\ \/ /\ n.s < MaxSubs /\ n' = [n EXCEPT !.s = @ + 1]
          /\ \E t \in TypeSet :
                /\ Subscribe(n.s + 1, t)
                /\ Note([a |-> "sub", c |-> n.s + 1, t |-> t])
       \/ /\ n.m < MaxMsgs /\ n' = [n EXCEPT !.m = @ + 1]
          /\ \/ \E p \in Shapes :
                /\ Offer([id |-> n.m + 1, on |-> n.m + 1, kind |-> "ours",
                          rp |-> "x", pl |-> Pl(p, n.m + 1)])
                /\ Note([a |-> "msg", m |-> n.m + 1, kind |-> "ours",
                         pl |-> p])
             \/ /\ Gen
                /\ Offer([id |-> n.m + 1, on |-> n.m + 1, kind |-> "drop",
                          rp |-> "x", pl |-> <<>>])
                /\ Note([a |-> "msg", m |-> n.m + 1, kind |-> "drop",
                         pl |-> <<>>])
       \/ /\ n.c < MaxCancels /\ n' = [n EXCEPT !.c = @ + 1]
          /\ \E s \in subs :
                /\ ~s.cancelled /\ Cancel(s.c)
                /\ Note([a |-> "cancel", c |-> s.c])
       \/ /\ \E s \in subs :
                /\ SendReturn(s.c, TRUE)
                /\ Note([a |-> "rel", c |-> s.c, r |-> "ok"])
          /\ UNCHANGED n
       \/ /\ n.b < MaxBreaks /\ n' = [n EXCEPT !.b = @ + 1]
          /\ \E s \in subs :
                /\ SendReturn(s.c, FALSE)
                /\ Note([a |-> "rel", c |-> s.c, r |-> "err"])
       \/ /\ MaxStops > 0 /\ Stop /\ Note([a |-> "stop"]) /\ UNCHANGED n
          /\ Gen => Len(sched) > MaxLen - 4
    /\ UNCHANGED over

Wait ==
    /\ Gen /\ ~over /\ Room /\ Quiet
    /\ (IF sched = <<>> THEN FALSE ELSE sched[Len(sched)].a # "quiet")
    /\ Note([a |-> "quiet"])
    /\ UNCHANGED <<vars, n, over>>

Finish ==
    /\ Gen /\ ~over /\ Len(sched) = MaxLen /\ Quiet
    /\ over' = TRUE
    /\ PrintT(<<"SCHED", ToJson([s |-> sched])>>)
    /\ UNCHANGED <<vars, n, sched>>

SystemStep ==
    /\ ~over
    /\ \/ Internal
       \/ \E s \in subs :
            s.q # <<>> /\ Send(s.c, Head(s.q).v, Head(s.q).rp)
       \/ \E s \in subs : \E r \in Codes(s) : Return(s.c, r)
       \/ StopReturn
    /\ UNCHANGED <<n, sched, over>>

MCNext == (Env \/ Wait \/ Finish \/ SystemStep) /\ Hist

---------------------------------------------------------------------------
\* Quiet states are exactly those without a step that has to happen: what
\* remains enabled is only buffering for a busy subscription.
QuietMeans ==
    Quiet => ~ENABLED (\/ TakeMessage
                       \/ \E s \in subs : Leave(s) \/ Register(s)
                       \/ StopReturn)

Ix(k, c, m) == {i \in 1..Len(hist) : hist[i] = [k |-> k, c |-> c, m |-> m]}
Took(m) == {i \in 1..Len(hist) : hist[i].k = "take" /\ hist[i].m = m}
RegAt(c) == {i \in 1..Len(hist) : hist[i].k = "reg" /\ hist[i].c = c}
GoneAt(c) == {i \in 1..Len(hist) : hist[i].k = "gone" /\ hist[i].c = c}

\* C09: handed over at most once, in arrival order.
InOrder ==
    \A i, j \in 1..Len(hist) :
        (i < j /\ hist[i].k = "push" /\ hist[j].k = "push" /\
         hist[i].c = hist[j].c) => hist[i].m < hist[j].m

\* C09: nothing is lost: while nobody left, broke or stopped, each message taken
\* after the registration is handed over by the time the system is at rest with
\* all clients reading.
Has(m, t) == \E k \in 1..Len(m.pl) : m.pl[k].t = t

NoLoss ==
    (/\ Quiet /\ ~Stopping /\ n.c = 0 /\ n.b = 0
     /\ \A s \in subs : ~s.sending) =>
        Idle /\ \A s \in subs : s.q = <<>>

\* C10: nobody waits for a subscription that has ended.
NoBlock == \A s \in subs : (Quiet /\ s.cancelled) => s.sending \/ s.st = "new"
                                                        \/ s.st = "left"

---------------------------------------------------------------------------
\* Liveness: clients read, or their streams break.
ClientReads ==
    /\ \E s \in subs : SendReturn(s.c, TRUE)
    /\ UNCHANGED <<n, sched, over>> /\ Hist
MCFair == /\ MCInit /\ [][MCNext]_mcvars
          /\ WF_mcvars(SystemStep /\ Hist) /\ WF_mcvars(ClientReads)

\* C10: a subscription that is refused, left, broken or stopped ends.
Ends ==
    \A c \in 1..MaxSubs :
        (\E s \in subs : s.c = c /\
            (s.cancelled \/ s.broken \/ Stopping \/ s.st = "taken")) ~>
        ~(\E s \in subs : s.c = c)
\* C16: stop ends; C10: what is taken keeps flowing.
StopEnds == quit = "yes" ~> quit = "ret"
AllTaken == (stream # <<>> /\ ~Stopping) ~> (stream = <<>> \/ Stopping)
\* C09: what was handed over to a subscription gets to a client that stays.
AllSent ==
    \A c \in 1..MaxSubs :
        (\E s \in subs : s.c = c /\ s.q # <<>>) ~>
        ~(\E s \in subs : s.c = c /\ s.q # <<>>)
=============================================================================
