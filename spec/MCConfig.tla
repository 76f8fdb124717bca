------------------------------ MODULE MCConfig ------------------------------
(* All lists of a few options, and lists of lists for the harness.            *)
EXTENDS Config, TLC, Json

CONSTANTS MaxOpts, MaxMade, Gen, Addrs, Nets, Vers, Retries, Waits, Logs

VARIABLES opts, lists, over
vars == <<made, opts, lists, over>>

Client(a, n, v, b) ==
    [addr |-> a, macdir |-> IF b THEN "d" ELSE "", mac |-> IF b THEN "" ELSE "m",
     tls |-> IF b THEN "t" ELSE "", ver |-> v, net |-> n, sync |-> IF b THEN "yes" ELSE "no",
     unlocked |-> IF b THEN "no" ELSE "yes", rest |-> IF b THEN "r" ELSE ""]

Options ==
    {[k |-> "lnd", listen |-> x, net |-> n, mac |-> "lm", tls |-> "lt"] :
        x \in {<<>>} \cup {<<a, b>> : a, b \in Addrs}
                  \cup {<<a>> : a \in Addrs},
        n \in Nets \cup {"simnet"}}
    \cup {[k |-> "client", c |-> Client(a, n, v, b)] :
            a \in Addrs, n \in Nets, v \in Vers, b \in BOOLEAN}
    \cup {[k |-> "client", c |-> None], [k |-> "fail"]}
    \cup {[k |-> "edit", f |-> "addr", v |-> a] : a \in Addrs}
    \cup {[k |-> "edit", f |-> "sync", v |-> "no"]}
    \cup {[k |-> "edit", f |-> "net", v |-> n] : n \in Nets}
    \cup {[k |-> "edit", f |-> "ver", v |-> v] : v \in Vers}
    \cup {[k |-> "num", f |-> "retries", n |-> n] : n \in Retries}
    \cup {[k |-> "num", f |-> "wait", n |-> n] : n \in Waits}
    \cup {[k |-> "set", f |-> "log", v |-> x] : x \in Logs}
    \cup {[k |-> "set", f |-> "shut", v |-> x] : x \in Logs \ {"lnd"}}

MCInit == made = <<>> /\ opts = <<>> /\ lists = <<>> /\ over = FALSE

\* Nobody edits what isn't there.
Fits(o) ==
    LET r == Fold(Default, opts)
    IN o.k = "edit" /\ r.ok => r.cfg.client # None

Add ==
    /\ Len(opts) < MaxOpts /\ Len(made) < MaxMade
    /\ \E o \in Options : Fits(o) /\ opts' = Append(opts, o)
    /\ UNCHANGED <<made, lists, over>>
Make ==
    /\ Len(made) < MaxMade /\ Create(opts)
    /\ opts' = <<>> /\ lists' = IF Gen THEN Append(lists, opts) ELSE <<opts>>
    /\ UNCHANGED over
Tell ==
    /\ Gen /\ Len(made) = MaxMade /\ ~over /\ over' = TRUE
    /\ PrintT(<<"LISTS", ToJson([lists |-> lists])>>)
    /\ UNCHANGED <<made, opts, lists>>
MCNext == Add \/ Make \/ Tell

---------------------------------------------------------------------------
Last == made[Len(made)]
Os == lists[Len(lists)]
\* The options that have a say about x.
Say(x) == {i \in 1..Len(Os) :
    \/ x = Os[i].k
    \/ Os[i].k \in {"edit", "set", "num"} /\ Os[i].f = x
    \/ Os[i].k \in {"lnd", "client"} /\ x \in DOMAIN Default.client}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i

\* The last word has it; no word leaves the default.
LastWord ==
    made # <<>> /\ Last.ok =>
        /\ \A x \in {"log", "shut"} :
            Last.cfg[x] = IF Say(x) = {} THEN "" ELSE Os[Max(Say(x))].v
        /\ \A x \in {"retries", "wait"} :
            Last.cfg[x] = IF Say(x) = {} THEN Default[x] ELSE Os[Max(Say(x))].n
        /\ \A x \in {"addr", "net", "ver", "sync", "mac"} :
            Last.cfg.client[x] =
                IF Say(x) = {} THEN Default.client[x]
                ELSE LET o == Os[Max(Say(x))]
                     IN CASE o.k = "edit" -> o.v
                          [] o.k = "client" -> o.c[x]
                          [] OTHER -> (CASE x = "addr" -> Head(o.listen)
                                         [] x = "net" -> o.net
                                         [] x = "ver" -> "min"
                                         [] x = "sync" -> "yes"
                                         [] x = "mac" -> o.mac)

\* Nothing runs on a configuration that can't work.
NoneWithout ==
    made # <<>> =>
        /\ Say("fail") # {} => ~Last.ok
        /\ Last.ok => /\ Last.cfg.client # None /\ Last.cfg.wait >= 0
                      /\ Last.cfg.client.ver \notin {"none", "low"}
                      /\ Last.n = Len(Os)
        /\ Last.n < Len(Os) => Fails(Os[Last.n + 1])
=============================================================================
