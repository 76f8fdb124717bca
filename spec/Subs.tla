-------------------------------- MODULE Subs --------------------------------
(***************************************************************************)
(* Subscriptions to onion message payloads (rpcserver, on top of the       *)
(* messenger's event loop).  A subscription registers a handler with the   *)
(* event loop, which pushes payloads to it; the subscription's own         *)
(* goroutine hands them to the client's stream.                            *)
(*                                                                         *)
(* How much is buffered between the two is left open: the event loop MAY   *)
(* push at any time, it MUST (Quiet) when the subscription has nothing to  *)
(* do.                                                                     *)
(*                                                                         *)
(* A message is [id, kind, pl], see Messenger.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    subs,     \* set of subscriptions: [c, t, st, reg, q, sending, fresh,
              \*                        cancelled, broken]. fresh: it may not
              \*                        know yet that it is registered
    cur, pos, \* message that is being dispatched, as in Messenger
    stream,   \* messages that lnd has for us
    seen,     \* onions processed
    quit      \* stop was requested: "no", "yes", "ret" (stop has returned)

vars == <<subs, cur, pos, stream, seen, quit>>

Init ==
    /\ subs = {} /\ cur = <<>> /\ pos = 0 /\ stream = <<>> /\ seen = {}
    /\ quit = "no"

Sub(c) == CHOOSE s \in subs : s.c = c
Put(s, n) == subs' = (subs \ {s}) \cup {n}

\* The subscription that is registered for a type.
HandlerOf(t) == {s \in subs : s.reg /\ s.t = t}

NextDue(m, i) ==
    LET S == {j \in i..Len(m.pl) : HandlerOf(m.pl[j].t) # {}}
    IN  IF S = {} THEN Len(m.pl) + 1
        ELSE CHOOSE j \in S : \A k \in S : j <= k

Idle == cur = <<>>
Stopping == quit # "no"

---------------------------------------------------------------------------
(* Environment *)

Subscribe(c, t) ==
    /\ \A s \in subs : s.c # c
    /\ subs' = subs \cup {[c |-> c, t |-> t, st |-> "new", reg |-> FALSE,
                           q |-> <<>>, sending |-> FALSE, fresh |-> TRUE,
                           cancelled |-> FALSE, broken |-> FALSE]}
    /\ UNCHANGED <<cur, pos, stream, seen, quit>>

\* The client leaves. (It may be too late.)
Cancel(c) ==
    /\ subs' = {IF s.c = c THEN [s EXCEPT !.cancelled = TRUE] ELSE s :
                    s \in subs}
    /\ UNCHANGED <<cur, pos, stream, seen, quit>>

SendReturn(c, ok) ==
    \E s \in subs :
        /\ s.c = c /\ s.sending
        /\ Put(s, [s EXCEPT !.sending = FALSE, !.broken = ~ok])
        /\ UNCHANGED <<cur, pos, stream, seen, quit>>

Offer(m) ==
    /\ stream' = Append(stream, m)
    /\ UNCHANGED <<subs, cur, pos, seen, quit>>

Stop ==
    /\ quit = "no" /\ quit' = "yes"
    /\ UNCHANGED <<subs, cur, pos, stream, seen>>

---------------------------------------------------------------------------
(* Visible steps of the system *)

\* A payload is handed to the stream of subscription c.
Send(c, v, rp) ==
    \E s \in subs :
        /\ s.c = c /\ s.st = "active" /\ ~s.sending /\ ~s.broken
        /\ s.q # <<>> /\ Head(s.q).v = v /\ Head(s.q).rp = rp
        /\ Put(s, [s EXCEPT !.sending = TRUE, !.fresh = FALSE,
                              !.q = Tail(s.q)])
        /\ UNCHANGED <<cur, pos, stream, seen, quit>>

\* Codes that a subscription may end with.
Codes(s) ==
    CASE s.st = "low" -> {"InvalidArgument"}
      [] s.st = "taken" -> {"Unavailable"}
      [] s.st = "down" -> {"Unavailable", "Aborted"}
      [] s.st = "left" -> s.codes
      [] OTHER -> {}

Return(c, r) ==
    \E s \in subs :
        /\ s.c = c /\ r \in Codes(s) /\ ~s.reg
        /\ subs' = subs \ {s}
        /\ UNCHANGED <<cur, pos, stream, seen, quit>>

StopReturn ==
    /\ quit = "yes" /\ Idle /\ quit' = "ret"
    /\ UNCHANGED <<subs, cur, pos, stream, seen>>

---------------------------------------------------------------------------
(* Internal steps *)

Register(s) ==
    /\ s.st = "new"
    /\ \/ /\ s.t = 0
          /\ Put(s, [s EXCEPT !.st = "low"])
       \/ /\ s.t # 0 /\ Idle /\ quit # "ret"
          /\ IF HandlerOf(s.t) # {}
             THEN Put(s, [s EXCEPT !.st = "taken"])
             ELSE Put(s, [s EXCEPT !.st = "active", !.reg = TRUE])
       \/ /\ s.t # 0 /\ Stopping
          /\ Put(s, [s EXCEPT !.st = "down"])
    /\ UNCHANGED <<cur, pos, stream, seen, quit>>

TakeMessage ==
    /\ Idle /\ quit # "ret" /\ stream # <<>>
    /\ stream' = Tail(stream)
    /\ LET m == Head(stream)
           n == IF m.kind = "ours" /\ m.on \notin seen
                THEN NextDue(m, 1) ELSE Len(m.pl) + 1
       IN /\ IF n <= Len(m.pl) THEN cur' = <<m>> /\ pos' = n
                               ELSE cur' = <<>> /\ pos' = 0
          /\ seen' = IF m.kind = "drop" THEN seen ELSE seen \cup {m.on}
    /\ UNCHANGED <<subs, quit>>

\* The due payload goes to its subscription.
Push ==
    /\ ~Idle
    /\ LET m == cur[1]
           t == m.pl[pos].t
           n == NextDue(m, pos + 1)
           item == [v |-> m.pl[pos].v, rp |-> m.rp]
       IN \E s \in HandlerOf(t) :
            /\ Put(s, [s EXCEPT !.q = Append(@, item)])
            /\ IF n <= Len(m.pl) THEN cur' = cur /\ pos' = n
                                 ELSE cur' = <<>> /\ pos' = 0
    /\ UNCHANGED <<stream, seen, quit>>

\* The subscription that the payload is for is over: it isn't handed over, the
\* rest of the message is dropped.
PushFail ==
    /\ ~Idle
    /\ \E s \in HandlerOf(cur[1].pl[pos].t) :
        s.cancelled \/ s.st = "left" \/ Stopping
    /\ cur' = <<>> /\ pos' = 0
    /\ UNCHANGED <<subs, stream, seen, quit>>

\* The subscription ends.
EndCodes(s) ==
    (IF s.broken THEN {"broken"} ELSE {})
    \cup (IF s.cancelled /\ ~s.broken THEN {"Canceled"} ELSE {})
    \cup (IF Stopping /\ ~s.broken THEN {"Aborted"} ELSE {})
    \cup (IF Stopping /\ s.fresh THEN {"Unavailable"} ELSE {})

Leave(s) ==
    /\ s.st = "active" /\ ~s.sending /\ EndCodes(s) # {}
    /\ \E k \in EndCodes(s) :
        subs' = (subs \ {s}) \cup
            {[c |-> s.c, t |-> s.t, st |-> "left", reg |-> s.reg, q |-> <<>>,
              sending |-> FALSE, fresh |-> FALSE, cancelled |-> s.cancelled,
              broken |-> s.broken, codes |-> {k}]}
    /\ UNCHANGED <<cur, pos, stream, seen, quit>>

\* The event loop forgets it (or has gone).
Release(s) ==
    /\ s.st = "left" /\ s.reg
    /\ Idle \/ Stopping
    /\ Put(s, [s EXCEPT !.reg = FALSE])
    \* If a stop got in between, a message may still be on its way to it.
    /\ IF Idle THEN UNCHANGED <<cur, pos>>
       ELSE IF cur[1].pl[pos].t = s.t THEN cur' = <<>> /\ pos' = 0
       ELSE UNCHANGED <<cur, pos>>
    /\ UNCHANGED <<stream, seen, quit>>

Internal ==
    \/ TakeMessage \/ Push \/ PushFail
    \/ \E s \in subs : Register(s) \/ Leave(s) \/ Release(s)

---------------------------------------------------------------------------
\* Nothing has to happen until the environment does something.
Quiet ==
    /\ Idle /\ quit # "ret" => stream = <<>>
    /\ quit # "yes"
    /\ Stopping => subs = {} \/ \A s \in subs : s.sending
    /\ \A s \in subs :
        /\ s.st # "low" /\ s.st # "taken" /\ s.st # "down"
        /\ s.st = "new" => ~Idle /\ s.t # 0
        /\ s.st = "active" /\ ~s.sending => s.q = <<>> /\ EndCodes(s) = {}
        /\ s.st = "left" => s.reg /\ ~Idle
    \* The event loop may be blocked only by a subscription that is busy.
    /\ ~Idle => \E s \in HandlerOf(cur[1].pl[pos].t) :
                    s.sending /\ ~s.cancelled /\ ~Stopping

\* At rest, all subscriptions that are registered know.
Rest ==
    /\ Quiet
    /\ subs' = {[s EXCEPT !.fresh = @ /\ s.st = "new"] : s \in subs}
    /\ UNCHANGED <<cur, pos, stream, seen, quit>>

---------------------------------------------------------------------------
\* C10: one active subscription per type, none below the range.
Exclusive ==
    /\ \A a, b \in subs : a.reg /\ b.reg /\ a.t = b.t => a.c = b.c
    /\ \A a \in subs : a.reg => a.t # 0
=============================================================================
