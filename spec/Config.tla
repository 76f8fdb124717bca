------------------------------- MODULE Config -------------------------------
(* Creation of daemons (package boltnd) from lists of options. A daemon is    *)
(* configured by what its options say, the last word having it, and by        *)
(* defaults otherwise; what other daemons were told is of no concern.         *)
(* An option is a record with at least the kind k:                            *)
(*   lnd     derives the client configuration from lnd's own configuration:   *)
(*           listen (sequence of addresses), net, mac, tls                    *)
(*   client  sets the client configuration c, None if there is none           *)
(*   edit    sets field f of the client configuration to v                    *)
(*   set     sets field f of the configuration (log, shut) to v               *)
(*   num     sets field f of the configuration (retries, wait) to n           *)
(*   fail    fails                                                            *)
EXTENDS Integers, Sequences

VARIABLE made   \* the daemons that were asked for so far
cvars == <<made>>

None == [addr |-> "none"]

Default ==
    [client |-> [addr |-> "default", macdir |-> "default", mac |-> "",
                 tls |-> "default", ver |-> "min", net |-> "mainnet",
                 sync |-> "yes", unlocked |-> "yes", rest |-> ""],
     retries |-> 4, wait |-> 10000, log |-> "", shut |-> ""]

Networks == {"mainnet", "testnet", "regtest"}

Fails(o) ==
    \/ o.k = "fail"
    \/ o.k = "lnd" /\ (o.listen = <<>> \/ o.net \notin Networks)

Apply(c, o) ==
    CASE o.k = "lnd" ->
            [c EXCEPT !.client =
                [addr |-> o.listen[1], macdir |-> "", mac |-> o.mac,
                 tls |-> o.tls, ver |-> "min", net |-> o.net,
                 sync |-> "yes", unlocked |-> "yes", rest |-> ""]]
      [] o.k = "client" -> [c EXCEPT !.client = o.c]
      [] o.k = "edit" -> [c EXCEPT !.client[o.f] = o.v]
      [] o.k = "set" -> [c EXCEPT ![o.f] = o.v]
      [] o.k = "num" -> [c EXCEPT ![o.f] = o.n]

\* Options that are applied, up to the one that fails.
RECURSIVE Fold(_, _)
Fold(c, os) ==
    IF os = <<>> THEN [ok |-> TRUE, cfg |-> c, n |-> 0]
    ELSE IF Fails(os[1]) THEN [ok |-> FALSE, cfg |-> c, n |-> 0]
    ELSE LET r == Fold(Apply(c, os[1]), Tail(os))
         IN [r EXCEPT !.n = @ + 1]

Valid(c) ==
    /\ c.client # None
    /\ c.client.ver \in {"min", "high"}
    /\ c.wait >= 0

Result(os) ==
    LET r == Fold(Default, os)
    IN [ok |-> r.ok /\ Valid(r.cfg), n |-> r.n, cfg |-> r.cfg]

Create(os) == made' = Append(made, Result(os))
=============================================================================
