----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of a server (rpcserver.Server): starts and stops, and the RPCs *)
(* that arrive before, during and after.                                   *)
(*                                                                         *)
(* A start asks lnd who we are, subscribes to lnd's messages, and lets the *)
(* RPCs through.  An RPC is [c, op, valid, st, cancelled, acted, known,    *)
(* due]: op is "send", "route", "decode" or "sub".                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    phase,    \* "new", "starting", "asked" (lnd), "told", "ready", "failed"
    stop,     \* "no", "begun", "done"
    starts,   \* calls of start: [i, st], st: "called", "mine", "ok", "err"
    stops,    \* calls of stop, likewise
    calls,    \* RPCs
    streams   \* subscriptions to lnd's messages that are open

vars == <<phase, stop, starts, stops, calls, streams>>

Init ==
    /\ phase = "new" /\ stop = "no" /\ starts = {} /\ stops = {}
    /\ calls = {} /\ streams = 0

\* What has become of the start that does the work.
Mine(S, r) == {IF s.st = "mine" THEN [s EXCEPT !.st = r] ELSE s : s \in S}
Put(S, s, n) == (S \ {s}) \cup {n}
Coming == phase \in {"starting", "asked", "told"}

---------------------------------------------------------------------------
(* Starts *)

StartCall(i) ==
    /\ \A s \in starts : s.i # i
    /\ starts' = starts \cup {[i |-> i, st |-> "called"]}
    /\ UNCHANGED <<phase, stop, stops, calls, streams>>

Begin(s) ==
    /\ s.st = "called" /\ phase = "new" /\ stop = "no"
    /\ phase' = "starting"
    /\ starts' = Put(starts, s, [s EXCEPT !.st = "mine"])
    /\ UNCHANGED <<stop, stops, calls, streams>>

\* Started before, or stopped.
Refuse(s) ==
    /\ s.st = "called" /\ (phase # "new" \/ stop # "no")
    /\ starts' = Put(starts, s, [s EXCEPT !.st = "err"])
    /\ UNCHANGED <<phase, stop, stops, calls, streams>>

Ask ==
    /\ phase = "starting" /\ phase' = "asked"
    /\ UNCHANGED <<stop, starts, stops, calls, streams>>

Tell(ok) ==
    /\ \/ /\ phase = "asked" /\ phase' = (IF ok THEN "told" ELSE "failed")
          /\ starts' = IF ok THEN starts ELSE Mine(starts, "err")
       \/ /\ phase = "failed" /\ UNCHANGED <<phase, starts>>
    /\ UNCHANGED <<stop, stops, calls, streams>>

Ready ==
    /\ phase \in {"starting", "told"} /\ stop # "done"
    /\ phase' = "ready" /\ starts' = Mine(starts, "ok")
    /\ UNCHANGED <<stop, stops, calls, streams>>

\* A start may notice that the server is being stopped.
Abandon ==
    /\ Coming /\ stop # "no"
    /\ phase' = "failed" /\ starts' = Mine(starts, "err")
    /\ UNCHANGED <<stop, stops, calls, streams>>

StartReturn(i, ok) ==
    \E s \in starts :
        /\ s.i = i /\ s.st = (IF ok THEN "ok" ELSE "err")
        /\ starts' = Put(starts, s, [s EXCEPT !.st = "over"])
        /\ UNCHANGED <<phase, stop, stops, calls, streams>>

\* A subscription to lnd's messages is opened, or released.
Open ==
    /\ phase \in {"starting", "told", "ready"} /\ stop # "done"
    /\ streams = 0 /\ streams' = 1
    /\ UNCHANGED <<phase, stop, starts, stops, calls>>

Close ==
    /\ stop # "no" /\ streams > 0 /\ streams' = streams - 1
    /\ UNCHANGED <<phase, stop, starts, stops, calls>>

---------------------------------------------------------------------------
(* Stops *)

StopCall(i) ==
    /\ \A s \in stops : s.i # i
    /\ stops' = stops \cup {[i |-> i, st |-> "called"]}
    /\ UNCHANGED <<phase, stop, starts, calls, streams>>

StopBegin(s) ==
    /\ s.st = "called"
    /\ IF stop = "no"
       THEN stop' = "begun" /\ stops' = Put(stops, s, [s EXCEPT !.st = "mine"])
       ELSE stop' = stop /\ stops' = Put(stops, s, [s EXCEPT !.st = "err"])
    /\ UNCHANGED <<phase, starts, calls, streams>>

\* A start that is still busy won't succeed from now on.
StopEnd ==
    /\ stop = "begun" /\ stop' = "done" /\ stops' = Mine(stops, "ok")
    /\ UNCHANGED <<phase, starts, calls, streams>>

StopReturn(i, ok) ==
    \E s \in stops :
        /\ s.i = i /\ s.st = (IF ok THEN "ok" ELSE "err")
        /\ stops' = Put(stops, s, [s EXCEPT !.st = "over"])
        /\ UNCHANGED <<phase, stop, starts, calls, streams>>

---------------------------------------------------------------------------
(* RPCs *)

Call(c, op, valid) ==
    /\ \A x \in calls : x.c # c
    /\ calls' = calls \cup {[c |-> c, op |-> op, valid |-> valid,
                             st |-> "waiting", cancelled |-> FALSE,
                             acted |-> FALSE, known |-> FALSE, due |-> 0]}
    /\ UNCHANGED <<phase, stop, starts, stops, streams>>

Cancel(c) ==
    /\ calls' = {IF x.c = c THEN [x EXCEPT !.cancelled = TRUE] ELSE x :
                    x \in calls}
    /\ UNCHANGED <<phase, stop, starts, stops, streams>>

Through(x) ==
    /\ x.st = "waiting" /\ phase = "ready"
    /\ calls' = Put(calls, x, [x EXCEPT !.st = "through"])
    /\ UNCHANGED <<phase, stop, starts, stops, streams>>

\* The call does what it is for.
Act(c, op) ==
    \E x \in calls :
        /\ x.c = c /\ x.op = op /\ x.valid /\ x.st = "through" /\ ~x.acted
        /\ calls' = Put(calls, x, [x EXCEPT !.acted = TRUE])
        /\ UNCHANGED <<phase, stop, starts, stops, streams>>

\* lnd has a message for a subscription, the subscription hands it over.
Offer(c) ==
    /\ calls' = {IF x.c = c THEN [x EXCEPT !.due = @ + 1] ELSE x :
                    x \in calls}
    /\ UNCHANGED <<phase, stop, starts, stops, streams>>

Deliver(c) ==
    \E x \in calls :
        /\ x.c = c /\ x.op = "sub" /\ x.valid /\ x.st = "through"
        /\ x.due > 0
        /\ calls' = Put(calls, x, [x EXCEPT !.due = @ - 1])
        /\ UNCHANGED <<phase, stop, starts, stops, streams>>

\* What a call may answer.
Answers(x) ==
    IF x.st = "waiting"
    THEN (IF x.cancelled THEN {"Unavailable"} ELSE {})
         \cup (IF stop # "no" THEN {"Aborted"} ELSE {})
    ELSE IF ~x.valid THEN {"InvalidArgument"}
    ELSE IF x.op = "sub"
    THEN (IF x.cancelled THEN {"Canceled"} ELSE {})
         \cup (IF stop # "no" THEN {"Aborted"} ELSE {})
         \cup (IF stop # "no" /\ ~x.known THEN {"Unavailable"} ELSE {})
    ELSE (IF x.acted \/ x.op = "decode" THEN {"OK"} ELSE {})
         \cup (IF x.cancelled THEN {"Canceled", "Internal"} ELSE {})
         \cup (IF stop # "no" THEN {"Aborted", "Internal"} ELSE {})

Answer(c, r) ==
    \E x \in calls :
        /\ x.c = c /\ r \in Answers(x)
        /\ calls' = calls \ {x}
        /\ UNCHANGED <<phase, stop, starts, stops, streams>>

---------------------------------------------------------------------------
Internal ==
    \/ \E s \in starts : Begin(s) \/ Refuse(s)
    \/ Ready \/ Abandon
    \/ \E s \in stops : StopBegin(s)
    \/ StopEnd
    \/ \E x \in calls : Through(x)

\* Nothing has to happen until the environment does something.
Quiet ==
    /\ phase \notin {"starting", "told"}
    /\ \A s \in starts :
        s.st # "over" => s.st = "mine" /\ phase = "asked"
    /\ \A s \in stops :
        s.st # "over" => s.st = "mine" /\ stop = "begun" /\ phase = "asked"
    /\ stop = "begun" => phase = "asked"
    /\ stop = "done" => streams = 0
    /\ phase = "ready" /\ stop = "no" => streams = 1
    /\ \A x \in calls :
        /\ stop # "done"
        /\ x.st = "waiting" => phase # "ready" /\ ~x.cancelled
        /\ x.st = "through" => /\ x.op = "sub" /\ x.valid /\ ~x.cancelled
                               /\ stop = "no"
                               /\ x.known => x.due = 0

\* At rest, all subscriptions are registered, and lnd's messages are taken as
\* soon as somebody takes them.
Rest ==
    /\ Quiet
    /\ calls' = {[x EXCEPT !.known = (x.st = "through"),
                          !.due = IF phase = "ready" THEN 0 ELSE @] :
                    x \in calls}
    /\ UNCHANGED <<phase, stop, starts, stops, streams>>

---------------------------------------------------------------------------
\* C16
NoActionBeforeReady ==
    \A x \in calls : x.st = "through" \/ x.acted => phase = "ready"
AtMostOnce ==
    /\ Cardinality({s \in starts : s.st = "ok"}) <= 1
    /\ Cardinality({s \in stops : s.st = "ok"}) <= 1
=============================================================================
