-------------------------------- MODULE Send --------------------------------
(***************************************************************************)
(* Sending an onion message: the calls that a request to send makes to lnd  *)
(* and how it ends.  The specification says what every step needs; in       *)
(* which order lnd is asked is left open.                                   *)
(*                                                                          *)
(* A request has valid (well formed), direct, and what OnionSize needs.     *)
(***************************************************************************)
EXTENDS OnionSize

VARIABLES
    req,       \* <<request>> while one is being processed
    asked,     \* lnd was called
    last,      \* last list of peers: "none", "yes" (has the target), "no"
    info,      \* graph data of the target: "none", "addr", "empty"
    conn,      \* connection made on behalf of the request: "none","ok","err"
    polls,     \* peer lists without the target since then
    route,     \* "none", "ok", "noroute", "bad" (cannot be used)
    failed,    \* a call to lnd failed
    cancelled, \* the caller gave up
    wire       \* the message: "none", "ok", "err"

vars == <<req, asked, last, info, conn, polls, route, failed, cancelled, wire>>

MaxPolls == 5

Init ==
    /\ req = <<>> /\ asked = FALSE /\ last = "none" /\ info = "none"
    /\ conn = "none" /\ polls = 0 /\ route = "none" /\ failed = FALSE
    /\ cancelled = FALSE /\ wire = "none"

Running == req # <<>>
R == req[1]

Call(r) ==
    /\ ~Running /\ req' = <<r>>
    /\ asked' = FALSE /\ last' = "none" /\ info' = "none" /\ conn' = "none"
    /\ polls' = 0 /\ route' = "none" /\ failed' = FALSE
    /\ cancelled' = FALSE /\ wire' = "none"

Cancel ==
    /\ Running /\ cancelled' = TRUE
    /\ UNCHANGED <<req, asked, last, info, conn, polls, route, failed, wire>>

\* C13: nothing is asked for a malformed request.
Ask == Running /\ R.valid /\ asked' = TRUE

\* The peers are listed. far: at a distance to the last time.
List(r, far) ==
    /\ Ask /\ wire = "none"
    /\ r \in {"yes", "no", "err"}
    /\ conn = "ok" => polls < MaxPolls /\ (polls > 0 => far)
    /\ last' = (IF r = "err" THEN last ELSE r)
    /\ polls' = IF conn = "ok" /\ r = "no" THEN polls + 1 ELSE polls
    /\ failed' = (failed \/ r = "err")
    /\ UNCHANGED <<req, info, conn, route, cancelled, wire>>

Info(target, r) ==
    /\ Ask /\ wire = "none"
    /\ r \in {"addr", "empty", "err"}
    /\ info' = (IF r = "err" \/ ~target THEN info ELSE r)
    /\ failed' = (failed \/ r = "err")
    /\ UNCHANGED <<req, last, conn, polls, route, cancelled, wire>>

\* C11: a connection only on request, to who isn't a peer, at its first address.
Connect(target, first, perm, r) ==
    /\ Ask
    /\ R.direct /\ last = "no" /\ info = "addr" /\ conn = "none"
    /\ ~failed /\ wire = "none"
    /\ target /\ first /\ perm
    /\ conn' = r /\ r \in {"ok", "err"}
    /\ failed' = (failed \/ r = "err")
    /\ UNCHANGED <<req, last, info, polls, route, cancelled, wire>>

\* C12: a route to the target (destination or introduction node), without
\* limits.
Query(target, free, r) ==
    /\ Ask /\ wire = "none"
    /\ target /\ free
    /\ r \in {"ok", "noroute", "bad", "err"}
    /\ route' = IF r = "err" THEN route ELSE r
    /\ failed' = (failed \/ r = "err")
    /\ UNCHANGED <<req, last, info, conn, polls, cancelled, wire>>

\* One message goes out. to: to the first node of the route, or to the target
\* for direct connections; whole: the recipient gets all of it.
Wire(to, whole, r) ==
    /\ Ask /\ wire = "none" /\ ~failed /\ ~cancelled
    /\ IF R.direct THEN last = "yes" ELSE route = "ok"
    /\ Fits(R) /\ to /\ whole
    /\ wire' = r /\ r \in {"ok", "err"}
    /\ UNCHANGED <<req, last, info, conn, polls, route, failed, cancelled>>

\* Why it may end without having sent.
NoRoute == ~R.direct /\ route = "noroute"
Justified ==
    \/ failed \/ cancelled \/ wire = "err" \/ ~Fits(R)
    \/ route = "bad"
    \/ R.direct /\ info = "empty" /\ last # "yes"
    \/ conn = "ok" /\ polls >= MaxPolls

Codes ==
    IF ~R.valid THEN {"InvalidArgument"}
    ELSE (IF wire = "ok" THEN {"OK"} ELSE {})
         \cup (IF wire = "none" /\ NoRoute /\ ~failed THEN {"NotFound"}
               ELSE {})
         \cup (IF wire # "ok" /\ Justified THEN {"Internal"} ELSE {})
         \cup (IF wire # "ok" /\ cancelled THEN {"Canceled"} ELSE {})

Return(r) ==
    /\ Running /\ r \in Codes
    /\ req' = <<>>
    /\ UNCHANGED <<asked, last, info, conn, polls, route, failed, cancelled,
                   wire>>

---------------------------------------------------------------------------
\* All that the specification allows, whatever lnd does.
Outcome == {"ok", "err"}
SysNext ==
    \/ Cancel
    \/ \E r \in {"yes", "no", "err"}, far \in BOOLEAN : List(r, far)
    \/ \E r \in {"addr", "empty", "err"}, t \in BOOLEAN : Info(t, r)
    \/ \E r \in Outcome, t, f, p \in BOOLEAN : Connect(t, f, p, r)
    \/ \E r \in {"ok", "noroute", "bad", "err"}, t, f \in BOOLEAN :
            Query(t, f, r)
    \/ \E r \in Outcome, to, w \in BOOLEAN : Wire(to, w, r)
    \/ \E r \in {"OK", "NotFound", "Internal", "InvalidArgument",
                 "Canceled"} : Return(r)
=============================================================================
