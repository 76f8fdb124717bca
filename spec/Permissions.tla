---------------------------- MODULE Permissions ----------------------------
(***************************************************************************)
(* Who may call what.  The daemon's service is part of lnd's own gRPC       *)
(* server: lnd knows the permissions that the daemon reports, and leaves    *)
(* the decision about a macaroon to the daemon.                             *)
(*                                                                         *)
(* A macaroon is [m, k, ops, cav]: its name, the root key it was made with, *)
(* what it allows, and its caveat.  A call goes through, or it doesn't.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

VARIABLES
    phase,    \* "new", "starting", "up", "stopped"
    lnd,      \* "up", "down" (doesn't answer), "deny" (denies everything)
    macs,     \* macaroons
    dead,     \* root keys that have been revoked
    calls     \* calls in progress: [c, meth, req, m, form, may]

vars == <<phase, lnd, macs, dead, calls>>

Op(e, a) == [entity |-> e, action |-> a]

Write == {"SendOnionMessage"}
Read == {"DecodeOffer", "SubscribeOnionPayload", "GenerateBlindedRoute"}
Methods == Write \cup Read

\* What a method requires.
Required(meth) ==
    {IF meth \in Write THEN Op("peers", "write") ELSE Op("offchain", "read")}

\* The report: methods that are served, each with what it requires.
Report0 == [meth \in Methods |-> Required(meth)]

Init ==
    /\ phase = "new" /\ lnd = "up" /\ macs = {} /\ dead = {} /\ calls = {}

---------------------------------------------------------------------------
\* Whether a macaroon allows a method. "uri" names methods themselves.
\* req: what lnd says that it takes.
Allows(x, meth, req, gone) ==
    /\ x.k \notin gone
    /\ x.cav \in {"", "future"}
    /\ \/ req \subseteq x.ops
       \/ Op("uri", meth) \in x.ops

\* How the macaroon is presented: "ok", or else "none", "empty", "garbage",
\* "forged" (by somebody else), "broken" (wrong signature).
Good(c, gone) ==
    c.form \in {"ok", "upper"} /\ \E x \in macs : x.m = c.m /\ Allows(x, c.meth, c.req, gone)

\* What may become of a call, given how things are.
Fate(c, p, ln, gone) ==
    IF ~Good(c, gone) THEN {"refused"}
    ELSE CASE p \in {"new", "starting"} -> {"refused"}   \* or it waits
           [] p = "stopped" -> {"refused", "through"}
           [] ln = "up" -> {"through"}
           [] ln = "down" -> {"refused", "through"}
           [] OTHER -> {"refused"}

Again(p, ln, gone) ==
    {[c EXCEPT !.may = @ \cup Fate(c, p, ln, gone)] : c \in calls}

Bake(x) ==
    /\ \A y \in macs : y.m # x.m
    /\ macs' = macs \cup {x}
    /\ UNCHANGED <<phase, lnd, dead, calls>>

Revoke(k) ==
    /\ dead' = dead \cup {k} /\ calls' = Again(phase, lnd, dead')
    /\ UNCHANGED <<phase, lnd, macs>>

Lnd(r) ==
    /\ lnd' = r /\ calls' = Again(phase, r, dead)
    /\ UNCHANGED <<phase, macs, dead>>

StartCall ==
    /\ phase \in {"new", "stopped"}
    /\ phase' = IF phase = "new" THEN "starting" ELSE phase
    /\ UNCHANGED <<lnd, macs, dead, calls>>

\* While it's starting, there is a moment from which on it is up.
Up ==
    /\ phase = "starting" /\ phase' = "up"
    /\ calls' = Again("up", lnd, dead)
    /\ UNCHANGED <<lnd, macs, dead>>

StartReturn(ok) ==
    /\ IF ok THEN phase \in {"up", "stopped"} ELSE phase = "stopped"
    /\ UNCHANGED vars

Stop ==
    /\ phase' = "stopped" /\ calls' = Again("stopped", lnd, dead)
    /\ UNCHANGED <<lnd, macs, dead>>

Call(c, meth, req, m, form) ==
    LET x == [c |-> c, meth |-> meth, req |-> req, m |-> m, form |-> form,
              may |-> {}]
    IN  /\ \A y \in calls : y.c # c
        /\ calls' = calls \cup
                {[x EXCEPT !.may = Fate(x, phase, lnd, dead)]}
        /\ UNCHANGED <<phase, lnd, macs, dead>>

Answer(c, r) ==
    /\ \E x \in calls : x.c = c /\ r \in x.may /\ calls' = calls \ {x}
    /\ UNCHANGED <<phase, lnd, macs, dead>>

\* At rest only calls that wait for the start are left.
Rest ==
    /\ phase # "starting" /\ (phase = "new" \/ calls = {})
    /\ UNCHANGED vars
=============================================================================
