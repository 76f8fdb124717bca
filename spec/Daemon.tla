------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* The daemon (package boltnd): configuration, connecting to lnd with      *)
(* retries, serving, reporting the loss of lnd, stopping.                  *)
(*                                                                         *)
(* Times are in ms.  conf is the configuration in use: retries, wait and   *)
(* whether there is somebody to tell about failures (cb).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slack       \* what a machine may take to wake somebody up

VARIABLES
    conf,
    phase,    \* "none", "new", "trying", "dialing", "attempt", "up",
              \* "serving", "failed"
    left,     \* attempts left
    att,      \* attempts made
    last,     \* time of the last failure
    rpcok,    \* lnd answers after it was connected
    served,   \* the server has been started
    stop,     \* "no", "begun", "done"
    starts,   \* calls of start: [i, st], st: "called", "mine", "ok", "err"
    stops,    \* calls of stop, likewise
    calls,    \* RPCs that haven't been answered
    conns,    \* connections to lnd
    stream,   \* subscriptions to lnd's messages
    lost,     \* the subscription has been lost
    reports   \* requests to shut down

vars == <<conf, phase, left, att, last, rpcok, served, stop, starts, stops,
          calls, conns, stream, lost, reports>>

Init ==
    /\ conf = [retries |-> 0, wait |-> 0, cb |-> FALSE]
    /\ phase = "none" /\ left = 0 /\ att = 0 /\ last = 0 /\ rpcok = TRUE
    /\ served = FALSE /\ stop = "no" /\ starts = {} /\ stops = {}
    /\ calls = {} /\ conns = 0 /\ stream = 0 /\ lost = FALSE /\ reports = 0

Mine(S, r) == {IF s.st = "mine" THEN [s EXCEPT !.st = r] ELSE s : s \in S}
Put(S, s, n) == (S \ {s}) \cup {n}

---------------------------------------------------------------------------
(* Configuration.  A request is [opt, client, version, wait]: lnd's own     *)
(* configuration it was derived from ("" if none), whether there is a       *)
(* client configuration, the version it asks for.                           *)

Least == <<0, 15, 0>>
AtLeast(v, w) ==
    \/ v[1] > w[1]
    \/ v[1] = w[1] /\ v[2] > w[2]
    \/ v[1] = w[1] /\ v[2] = w[2] /\ v[3] >= w[3]

Valid(c) ==
    /\ c.opt \in {"", "mainnet", "testnet", "regtest"}
    /\ c.opt = "" => /\ c.client /\ c.version # <<>>
                     /\ AtLeast(c.version, Least)
    /\ c.wait >= 0

\* The network that lnd is expected to be on.
Network(c) == IF c.opt = "" THEN "regtest" ELSE c.opt

\* The daemon is created, or its configuration refused.
New(c, retries, cb, ok) ==
    /\ phase = "none" /\ ok = Valid(c)
    /\ phase' = IF ok THEN "new" ELSE "refused"
    /\ conf' = [retries |-> retries, wait |-> c.wait, cb |-> cb]
    /\ UNCHANGED <<left, att, last, rpcok, served, stop, starts, stops, calls,
                   conns, stream, lost, reports>>

---------------------------------------------------------------------------
(* Start *)

StartCall(i) ==
    /\ phase # "none" /\ \A s \in starts : s.i # i
    /\ starts' = starts \cup {[i |-> i, st |-> "called"]}
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, stops,
                   calls, conns, stream, lost, reports>>

Begin(s) ==
    /\ s.st = "called"
    /\ IF phase = "new"
       THEN /\ phase' = "trying" /\ left' = conf.retries + 1
            /\ starts' = Put(starts, s, [s EXCEPT !.st = "mine"])
       ELSE /\ starts' = Put(starts, s, [s EXCEPT !.st = "err"])
            /\ UNCHANGED <<phase, left>>
    /\ UNCHANGED <<conf, att, last, rpcok, served, stop, stops, calls, conns,
                   stream, lost, reports>>

Try ==
    /\ phase = "trying" /\ left > 0 /\ stop # "done"
    /\ phase' = "dialing" /\ left' = left - 1
    /\ UNCHANGED <<conf, att, last, rpcok, served, stop, starts, stops, calls,
                   conns, stream, lost, reports>>

Dial(t) ==
    /\ phase = "dialing"
    /\ att > 0 => /\ t + 2 >= last + conf.wait
                  /\ t <= last + conf.wait + Slack
    /\ phase' = "attempt" /\ att' = att + 1
    /\ UNCHANGED <<conf, left, last, rpcok, served, stop, starts, stops,
                   calls, conns, stream, lost, reports>>

\* How the attempt ends.
Tell(r, t) ==
    /\ phase = "attempt"
    /\ IF r \in {"ok", "okfail"}
       THEN phase' = "up" /\ rpcok' = (r = "ok") /\ UNCHANGED last
       ELSE phase' = "trying" /\ last' = t /\ UNCHANGED rpcok
    /\ UNCHANGED <<conf, left, att, served, stop, starts, stops, calls, conns,
                   stream, lost, reports>>

\* No attempt left.
GiveUp ==
    /\ phase = "trying" /\ left = 0
    /\ phase' = "failed" /\ starts' = Mine(starts, "err")
    /\ UNCHANGED <<conf, left, att, last, rpcok, served, stop, stops, calls,
                   conns, stream, lost, reports>>

Ready ==
    /\ phase = "up" /\ stop # "done"
    /\ phase' = "serving" /\ served' = TRUE /\ starts' = Mine(starts, "ok")
    /\ UNCHANGED <<conf, left, att, last, rpcok, stop, stops, calls, conns,
                   stream, lost, reports>>

\* lnd fails just after it was connected.
Fail ==
    /\ phase = "up" /\ ~rpcok
    /\ phase' = "failed" /\ starts' = Mine(starts, "err")
    /\ UNCHANGED <<conf, left, att, last, rpcok, served, stop, stops, calls,
                   conns, stream, lost, reports>>

\* A start notices that it is not wanted any more.
Abandon ==
    /\ phase \in {"trying", "up"} /\ stop # "no"
    /\ phase' = "failed" /\ starts' = Mine(starts, "err")
    /\ UNCHANGED <<conf, left, att, last, rpcok, served, stop, stops, calls,
                   conns, stream, lost, reports>>

StartReturn(i, ok) ==
    \E s \in starts :
        /\ s.i = i /\ s.st = (IF ok THEN "ok" ELSE "err")
        /\ starts' = Put(starts, s, [s EXCEPT !.st = "over"])
        /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop,
                       stops, calls, conns, stream, lost, reports>>

---------------------------------------------------------------------------
(* Connections and subscriptions, as lnd sees them *)

Conn ==
    /\ phase # "new" /\ conns' = conns + 1
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, stream, lost, reports>>

Unconn ==
    /\ conns > 0 /\ conns' = conns - 1
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, stream, lost, reports>>

Sub ==
    /\ phase \in {"up", "serving", "failed"} /\ stream = 0 /\ ~lost
    /\ phase = "failed" => stop # "no" \/ ~rpcok
    /\ stream' = 1
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, conns, lost, reports>>

Unsub ==
    /\ stream = 1 /\ stream' = 0
    /\ (stop # "no" \/ lost \/ phase = "failed") = TRUE
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, conns, lost, reports>>

\* lnd ends the subscription.
Lose ==
    /\ stream = 1 /\ stream' = 0 /\ lost' = TRUE
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, conns, reports>>

Request ==
    /\ lost /\ conf.cb /\ reports = 0
    /\ reports' = 1
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, calls, conns, stream, lost>>

---------------------------------------------------------------------------
(* Stop *)

StopCall(i) ==
    /\ phase # "none" /\ \A s \in stops : s.i # i
    /\ stops' = stops \cup {[i |-> i, st |-> "called"]}
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   calls, conns, stream, lost, reports>>

StopBegin(s) ==
    /\ s.st = "called"
    /\ IF stop = "no"
       THEN stop' = "begun" /\ stops' = Put(stops, s, [s EXCEPT !.st = "mine"])
       ELSE stop' = stop /\ stops' = Put(stops, s, [s EXCEPT !.st = "err"])
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, starts, calls,
                   conns, stream, lost, reports>>

StopEnd ==
    /\ stop = "begun" /\ stop' = "done" /\ stops' = Mine(stops, "ok")
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, starts, calls,
                   conns, stream, lost, reports>>

StopReturn(i, ok) ==
    \E s \in stops :
        /\ s.i = i /\ s.st = (IF ok THEN "ok" ELSE "err")
        /\ stops' = Put(stops, s, [s EXCEPT !.st = "over"])
        /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop,
                       starts, calls, conns, stream, lost, reports>>

---------------------------------------------------------------------------
(* RPCs of the service that was registered *)

Call(c) ==
    /\ c \notin calls /\ calls' = calls \cup {c}
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, conns, stream, lost, reports>>

\* "served": the answer of a server that is ready, for what was asked.
Answer(c, r) ==
    /\ c \in calls /\ calls' = calls \ {c}
    /\ (r = "served" /\ served) \/ (r = "Aborted" /\ stop # "no")
    /\ UNCHANGED <<conf, phase, left, att, last, rpcok, served, stop, starts,
                   stops, conns, stream, lost, reports>>

---------------------------------------------------------------------------
Internal ==
    \/ \E s \in starts : Begin(s)
    \/ Try \/ GiveUp \/ Ready \/ Fail \/ Abandon
    \/ \E s \in stops : StopBegin(s)
    \/ StopEnd

Quiet(t) ==
    /\ phase \notin {"dialing", "up"}
    /\ phase = "trying" => att > 0 /\ stop = "no"
                           /\ t <= last + conf.wait + Slack
    /\ \A s \in starts :
        s.st # "over" => s.st = "mine" /\ phase \in {"attempt", "trying"}
    /\ \A s \in stops : s.st = "over"
    /\ stop # "begun"
    /\ stop = "done" /\ phase # "attempt" => conns = 0 /\ stream = 0
    /\ phase = "serving" /\ stop = "no" =>
        /\ conns = 1
        /\ lost \/ stream = 1
        /\ lost /\ conf.cb => reports = 1
    /\ served \/ stop = "done" => calls = {}

Rest(t) == Quiet(t) /\ UNCHANGED vars

---------------------------------------------------------------------------
\* C17
Bounded == att <= conf.retries + 1
OneStart ==
    /\ Cardinality({s \in starts : s.st = "ok"}) <= 1
    /\ Cardinality({s \in stops : s.st = "ok"}) <= 1
Refused == phase = "refused" => att = 0 /\ conns = 0 /\ ~served
\* C08
ReportOnce == reports <= 1 /\ (reports = 1 => lost /\ conf.cb)
=============================================================================
