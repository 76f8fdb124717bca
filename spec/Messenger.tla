----------------------------- MODULE Messenger -----------------------------
(***************************************************************************)
(* The onion messenger (onionmsg/messenger.go): one event loop that takes  *)
(* messages from lnd's custom message stream, requests to (de)register     *)
(* handlers, and the request to stop; it hands final payloads to handlers  *)
(* or relays the message.                                                  *)
(*                                                                         *)
(* Every critical section of the code is one action here.  Calls of the    *)
(* API are two environment visible steps (call, return) with an internal   *)
(* step between them at which the event loop executes them.                *)
(*                                                                         *)
(* A message is a record                                                   *)
(*   id    number of the message                                           *)
(*   kind  "ours"  addressed to us                                         *)
(*         "fwd"   to be relayed                                           *)
(*         "drop"  anything else: other message types, junk, malformed     *)
(*   on    identity of the onion (a replay carries the onion of another    *)
(*         message)                                                        *)
(*   pl    sequence of [t |-> type, v |-> value], ascending types          *)
(*   rp/ed reply path / encrypted data carried for the last hop            *)
(*   to/bl next node and which blinding point it has to get                *)
(* Types are ranks; 0 stands for any type below the final payload range.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    started,  \* Start was executed
    quit,     \* Stop was executed (the quit channel is closed)
    loop,     \* event loop: "off", "run", "failing", "exited"
    cur,      \* sequence of at most one message that is being processed
    pos,      \* index of the payload of cur that is due
    busy,     \* a handler or relay of cur is executing
    reg,      \* registered handlers, a set of [t, h]
    calls,    \* calls in progress: set of records
    stream,   \* lnd's stream: offered and not yet taken messages, or Fail
    seen,     \* onions that were processed
    cbs       \* number of calls of the shutdown callback

vars == <<started, quit, loop, cur, pos, busy, reg, calls, stream, seen, cbs>>

Fail == [id |-> 0, kind |-> "fail"]

Init ==
    /\ started = FALSE /\ quit = FALSE /\ loop = "off"
    /\ cur = <<>> /\ pos = 0 /\ busy = FALSE
    /\ reg = {} /\ calls = {} /\ stream = <<>> /\ seen = {} /\ cbs = 0

\* The handler registered for a type: a set with at most one element.
HandlerOf(t) == {r.h : r \in {x \in reg : x.t = t}}

\* Index of the next payload at or after i that has a handler.
NextDue(m, i) ==
    LET S == {j \in i..Len(m.pl) : HandlerOf(m.pl[j].t) # {}}
    IN  IF S = {} THEN Len(m.pl) + 1
        ELSE CHOOSE j \in S : \A k \in S : j <= k

Idle == loop = "run" /\ cur = <<>>

---------------------------------------------------------------------------
(* Environment *)

\* A call is made. ns records that the messenger wasn't started then.
Call(c, op, t) ==
    /\ \A x \in calls : x.c # c
    /\ calls' = calls \cup {[c |-> c, op |-> op, t |-> t, st |-> "new",
                             ns |-> ~started, res |-> ""]}
    /\ UNCHANGED <<started, quit, loop, cur, pos, busy, reg, stream, seen, cbs>>

\* lnd has a message for us, or its stream fails after what it sent so far.
Offer(m) ==
    /\ stream' = Append(stream, m)
    /\ UNCHANGED <<started, quit, loop, cur, pos, busy, reg, calls, seen, cbs>>

\* The handler that is executing returns.
HandlerReturn(ok) ==
    /\ cur # <<>> /\ busy /\ cur[1].kind = "ours"
    /\ busy' = FALSE
    /\ LET n == IF ok THEN NextDue(cur[1], pos + 1) ELSE Len(cur[1].pl) + 1
       IN IF n > Len(cur[1].pl) THEN cur' = <<>> /\ pos' = 0
                                ELSE cur' = cur /\ pos' = n
    /\ UNCHANGED <<started, quit, loop, reg, calls, stream, seen, cbs>>

\* lnd answers our request to relay a message (either way).
RelayReturn ==
    /\ cur # <<>> /\ busy /\ cur[1].kind = "fwd"
    /\ busy' = FALSE /\ cur' = <<>> /\ pos' = 0
    /\ UNCHANGED <<started, quit, loop, reg, calls, stream, seen, cbs>>

---------------------------------------------------------------------------
(* The messenger: steps that can be observed *)

\* The event loop subscribes to lnd's messages.
Subscribe(ok) ==
    /\ started /\ loop = "off"
    /\ loop' = IF ok THEN "run" ELSE "failing"
    /\ UNCHANGED <<started, quit, cur, pos, busy, reg, calls, stream, seen, cbs>>

\* The handler h of the due payload is called.
HandlerEnter(h) ==
    /\ loop = "run" /\ cur # <<>> /\ cur[1].kind = "ours" /\ ~busy
    /\ h \in HandlerOf(cur[1].pl[pos].t)
    /\ busy' = TRUE
    /\ UNCHANGED <<started, quit, loop, cur, pos, reg, calls, stream, seen, cbs>>

\* The message is handed to lnd for the next node.
RelayEnter ==
    /\ loop = "run" /\ cur # <<>> /\ cur[1].kind = "fwd" /\ ~busy
    /\ busy' = TRUE
    /\ UNCHANGED <<started, quit, loop, cur, pos, reg, calls, stream, seen, cbs>>

\* The shutdown callback is called.
Callback ==
    /\ loop = "failing"
    /\ loop' = "exited" /\ cbs' = cbs + 1
    /\ UNCHANGED <<started, quit, cur, pos, busy, reg, calls, stream, seen>>

\* Results that a call may return with in this state.
Results(x) ==
    (IF x.st = "done" /\ (x.op # "stop" \/ x.res # "ok" \/ ~started
                            \/ loop = "exited")
        THEN {x.res} ELSE {})
    \cup (IF x.op \in {"reg", "dereg"} /\ x.t = 0 THEN {"range"} ELSE {})
    \cup (IF x.op \in {"reg", "dereg"} /\ x.ns THEN {"notstarted"} ELSE {})
    \cup (IF x.op \in {"reg", "dereg"} /\ x.t # 0
             /\ (quit \/ (x.st = "new" /\ loop \in {"failing", "exited"}))
             /\ ~x.ns
            THEN {"shut"} ELSE {})

Return(c, r) ==
    \E x \in calls :
        /\ x.c = c /\ r \in Results(x)
        /\ calls' = calls \ {x}
        /\ UNCHANGED <<started, quit, loop, cur, pos, busy, reg, stream, seen,
                       cbs>>

---------------------------------------------------------------------------
(* The messenger: internal steps *)

\* The event loop takes the next message. Replays have no effect.
TakeMessage ==
    /\ Idle /\ stream # <<>> /\ Head(stream) # Fail
    /\ stream' = Tail(stream)
    /\ LET m == Head(stream)
           act == m.kind # "drop" /\ m.on \notin seen
           n == IF act /\ m.kind = "ours" THEN NextDue(m, 1) ELSE 1
       IN /\ seen' = IF m.kind = "drop" THEN seen ELSE seen \cup {m.on}
          /\ IF act /\ (m.kind = "fwd" \/ n <= Len(m.pl))
                THEN cur' = <<m>> /\ pos' = n
                ELSE cur' = <<>> /\ pos' = 0
    /\ UNCHANGED <<started, quit, loop, busy, reg, calls, cbs>>

\* The event loop notices that the stream has failed.
TakeFailure ==
    /\ Idle /\ stream # <<>> /\ Head(stream) = Fail
    /\ loop' = "failing" /\ stream' = Tail(stream)
    /\ UNCHANGED <<started, quit, cur, pos, busy, reg, calls, seen, cbs>>

\* The event loop notices that it has to stop.
TakeQuit ==
    /\ Idle /\ quit
    /\ loop' = "exited"
    /\ UNCHANGED <<started, quit, cur, pos, busy, reg, calls, stream, seen, cbs>>

\* A call that was made before the start finds the messenger started.
SeesStarted(x) ==
    /\ x.op \in {"reg", "dereg"} /\ x.ns /\ started
    /\ calls' = (calls \ {x}) \cup {[x EXCEPT !.ns = FALSE]}
    /\ UNCHANGED <<started, quit, loop, cur, pos, busy, reg, stream, seen, cbs>>

\* The event loop executes a (de)registration.
TakeRequest(x) ==
    /\ Idle /\ x.op \in {"reg", "dereg"} /\ x.st = "new" /\ x.t # 0 /\ ~x.ns
    /\ LET taken == HandlerOf(x.t) # {}
           res == CASE x.op = "reg" /\ taken -> "dup"
                    [] x.op = "dereg" /\ ~taken -> "notfound"
                    [] OTHER -> "ok"
       IN /\ calls' = (calls \ {x}) \cup {[x EXCEPT !.st = "done", !.res = res]}
          /\ reg' = CASE res = "ok" /\ x.op = "reg" ->
                            reg \cup {[t |-> x.t, h |-> x.c]}
                      [] res = "ok" /\ x.op = "dereg" ->
                            {r \in reg : r.t # x.t}
                      [] OTHER -> reg
    /\ UNCHANGED <<started, quit, loop, cur, pos, busy, stream, seen, cbs>>

DoStart(x) ==
    /\ x.op = "start" /\ x.st = "new"
    /\ started' = TRUE
    /\ calls' = (calls \ {x}) \cup
            {[x EXCEPT !.st = "done", !.res = IF started THEN "err" ELSE "ok"]}
    /\ UNCHANGED <<quit, loop, cur, pos, busy, reg, stream, seen, cbs>>

DoStop(x) ==
    /\ x.op = "stop" /\ x.st = "new"
    /\ quit' = TRUE
    /\ calls' = (calls \ {x}) \cup
            {[x EXCEPT !.st = "done", !.res = IF quit THEN "err" ELSE "ok"]}
    /\ UNCHANGED <<started, loop, cur, pos, busy, reg, stream, seen, cbs>>

---------------------------------------------------------------------------
Internal ==
    \/ TakeMessage \/ TakeFailure \/ TakeQuit
    \/ \E x \in calls : SeesStarted(x) \/ TakeRequest(x) \/ DoStart(x) \/ DoStop(x)

ResultNames == {"ok", "err", "dup", "notfound", "range", "notstarted", "shut"}

Visible ==
    \/ \E ok \in BOOLEAN : Subscribe(ok)
    \/ \E r \in reg : HandlerEnter(r.h)
    \/ RelayEnter \/ Callback
    \/ \E x \in calls : \E r \in Results(x) : Return(x.c, r)

System == Internal \/ Visible

\* Nothing is left for the messenger to do: it waits for its environment.
\* (Same as ~ENABLED System, written out because TLC evaluates it faster.)
Quiet ==
    /\ ~(started /\ loop = "off")
    /\ loop # "failing"
    /\ ~(cur # <<>> /\ ~busy)
    /\ Idle => stream = <<>> /\ ~quit
    /\ \A x \in calls :
        /\ Results(x) = {}
        /\ ~(x.st = "new" /\ x.op \in {"start", "stop"})
        /\ ~(x.op \in {"reg", "dereg"} /\ x.ns /\ started)
        /\ ~(Idle /\ x.st = "new" /\ x.t # 0)

---------------------------------------------------------------------------
(* Properties *)

TypeOK ==
    /\ started \in BOOLEAN /\ quit \in BOOLEAN /\ busy \in BOOLEAN
    /\ loop \in {"off", "run", "failing", "exited"}
    /\ Len(cur) <= 1

\* C06: a type has at most one handler, and never one below the range.
Exclusive ==
    /\ \A a, b \in reg : a.t = b.t => a.h = b.h
    /\ \A a \in reg : a.t # 0

\* C08: the callback is called at most once.
CallbackOnce == cbs <= 1

\* C07: once a stop has succeeded, nothing runs.
StoppedIsIdle ==
    loop = "exited" => cur = <<>> /\ ~busy

\* The written out Quiet is the intended one.
QuietIsRight == Quiet <=> ~ENABLED System

\* C06: a handler runs only while it is registered.
RunsRegistered ==
    busy /\ cur[1].kind = "ours" => HandlerOf(cur[1].pl[pos].t) # {}
=============================================================================
