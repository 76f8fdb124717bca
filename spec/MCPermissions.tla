--------------------------- MODULE MCPermissions ---------------------------
(* Permissions in an environment of bounded activity.                         *)
EXTENDS Permissions, Sequences, TLC, Json

CONSTANTS
    MaxMacs, MaxCalls, Keys, Cavs, Forms,
    Rich,     \* more to allow
    Direct,   \* methods that take more than one permission
    MaxLen    \* > 0: generate schedules

VARIABLES n, sched, over, hist
\* hist: calls that went through, with how things were when they did.
mcvars == <<vars, n, sched, over, hist>>

Universe(meth) ==
    {Op("peers", "write"), Op("offchain", "read")} \cup
    (IF Rich THEN {Op("peers", "read"), Op("offchain", "write"),
                   Op("uri", meth), Op("info", "read")} ELSE {})

\* What may be asked for: by the methods of the service, or by a method that
\* takes more.
Reqs(meth) == {Required(meth)} \cup
    (IF Direct THEN {Universe(meth) \ {Op("info", "read"), Op("uri", meth)},
                     {Op("peers", "write"), Op("offchain", "read")}} ELSE {})

MCInit ==
    /\ Init /\ n = [mac |-> 0, call |-> 0] /\ sched = <<>> /\ over = FALSE
    /\ hist = {}

Gen == MaxLen > 0
Room == ~Gen \/ Len(sched) < MaxLen
Note(r) == sched' = IF Gen THEN Append(sched, r) ELSE sched

Env ==
    /\ ~over /\ Room
    /\ \/ /\ n.mac < MaxMacs /\ n' = [n EXCEPT !.mac = @ + 1]
          /\ \E k \in Keys, meth \in Methods, cav \in Cavs :
             \E ops \in SUBSET Universe(meth) :
                /\ Bake([m |-> n.mac + 1, k |-> k, ops |-> ops, cav |-> cav])
                /\ Note([a |-> "bake", m |-> n.mac + 1, k |-> k,
                         ops |-> ops, cav |-> cav])
       \/ /\ n.call < MaxCalls /\ n' = [n EXCEPT !.call = @ + 1]
          /\ \E meth \in Methods, x \in macs, form \in Forms :
             \E req \in Reqs(meth) :
                /\ Call(n.call + 1, meth, req, x.m, form)
                /\ Note([a |-> "call", c |-> n.call + 1, meth |-> meth,
                         req |-> req, direct |-> req # Required(meth),
                         m |-> x.m, r |-> form])
       \/ /\ \E x \in macs : x.k \notin dead /\ Revoke(x.k)
                             /\ Note([a |-> "revoke", k |-> x.k])
          /\ UNCHANGED n
       \/ /\ phase = "up"
          /\ \E r \in {"up", "down", "deny"} \ {lnd} :
                Lnd(r) /\ Note([a |-> "lnd", r |-> r])
          /\ UNCHANGED n
       \/ /\ phase = "new" /\ StartCall /\ Note([a |-> "start"])
          /\ UNCHANGED n
       \/ /\ phase = "up" /\ Stop /\ Note([a |-> "stop"])
          /\ Gen => Len(sched) > MaxLen - 3
          /\ UNCHANGED n
    /\ UNCHANGED <<over, hist>>

Wait ==
    /\ Gen /\ ~over /\ Room
    /\ (IF sched = <<>> THEN FALSE ELSE sched[Len(sched)].a # "quiet")
    /\ Rest /\ Note([a |-> "quiet"])
    /\ UNCHANGED <<n, over, hist>>

System ==
    /\ ~over
    /\ \/ Up /\ UNCHANGED hist
       \/ \E x \in calls, r \in {"refused", "through"} :
            /\ Answer(x.c, r)
            /\ hist' = IF Gen \/ r # "through" THEN hist
                       ELSE hist \cup {[meth |-> x.meth, req |-> x.req, m |-> x.m,
                                        form |-> x.form]}
    /\ UNCHANGED <<n, sched, over>>

Finish ==
    /\ Gen /\ ~over /\ Len(sched) = MaxLen /\ over' = TRUE
    /\ PrintT(<<"SCHED", ToJson([s |-> sched])>>)
    /\ UNCHANGED <<vars, n, sched, hist>>

MCNext == Env \/ Wait \/ System \/ Finish

---------------------------------------------------------------------------
\* C23: nobody gets through who lacks the permission.
Never ==
    \A h \in hist :
        /\ h.form \in {"ok", "upper"}
        /\ \E x \in macs : x.m = h.m /\ Allows(x, h.meth, h.req, {})
\* Sending needs more than reading.
Needs ==
    \A h \in hist : \E x \in macs :
        x.m = h.m /\ (h.meth \in Write \/ Op("peers", "write") \in h.req =>
            Op("peers", "write") \in x.ops \/ Op("uri", h.meth) \in x.ops)
\* After a revocation or before the start nothing new goes through.
Off ==
    \A x \in calls : phase \in {"new", "starting"} => x.may = {"refused"}
\* Every method is covered, with something.
Covered == \A m \in Methods : Required(m) # {} /\ Report0[m] = Required(m)
=============================================================================
