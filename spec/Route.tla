------------------------------- MODULE Route -------------------------------
(***************************************************************************)
(* Choosing the introduction node of a blinded route to us (C14).          *)
(*                                                                         *)
(* What lnd says: chans, the sequence of our channels [p, active], and     *)
(* info, what the graph has for each peer p:                               *)
(* [kind, n, feats], kind one of "ok", "nonode" (no announcement),         *)
(* "notfound", "error"; n public channels; feature bits feats.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

MaxFeature == 65535

Set(s) == {s[i] : i \in 1..Len(s)}

Eligible(i, req) ==
    /\ i.kind = "ok" /\ i.n > 0
    /\ \A f \in req : f % 2 = 0 => f \in Set(i.feats)

RECURSIVE Filter(_, _)
Filter(chans, i) ==
    IF i > Len(chans) THEN <<>>
    ELSE (IF chans[i].active THEN <<chans[i].p>> ELSE <<>>)
         \o Filter(chans, i + 1)

Err(c) == [r |-> c, intro |-> 0]

\* The answer to a request for a route with the features req.
Answer(req, list, chans, info) ==
    LET act == Filter(chans, 1)
        ok == {k \in 1..Len(act) : Eligible(info[act[k]], req)}
        best == {k \in ok : \A j \in ok :
                    \/ info[act[j]].n < info[act[k]].n
                    \/ info[act[j]].n = info[act[k]].n /\ j >= k}
    IN IF \E f \in req : f > MaxFeature THEN Err("InvalidArgument")
       ELSE IF list = "err" THEN Err("Internal")
       ELSE IF \E k \in 1..Len(act) : info[act[k]].kind = "error"
       THEN Err("Internal")
       ELSE IF ok = {} THEN Err("Internal")
       ELSE [r |-> "OK", intro |-> act[CHOOSE k \in best : TRUE]]
=============================================================================
