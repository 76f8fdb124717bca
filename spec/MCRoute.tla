------------------------------ MODULE MCRoute ------------------------------
(* All worlds up to a size: what the answer has to satisfy, worlds to replay. *)
EXTENDS Route, TLC, Json

CONSTANTS NPeers, NChans, NFeats, MaxN, Kinds, Gen

VARIABLES info, chans, req, list, done, over
vars == <<info, chans, req, list, done, over>>

Feats == 0..(NFeats - 1)
AsSeq(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>>
                        ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y
                             IN <<x>> \o F(T \ {x})
            IN F(S)
Infos == {[kind |-> k, n |-> n, feats |-> AsSeq(f)] :
            k \in Kinds, n \in 0..MaxN, f \in SUBSET Feats}
Chans == [p : 1..NPeers, active : BOOLEAN]

Init == info = <<>> /\ chans = <<>> /\ req = {} /\ list = "ok" /\ done = FALSE
        /\ over = FALSE

Build ==
    /\ ~done /\ UNCHANGED over
    /\ \/ /\ Len(info) < NPeers
          /\ \E i \in Infos : info' = Append(info, i)
          /\ UNCHANGED <<chans, req, list, done>>
       \/ /\ Len(info) = NPeers /\ Len(chans) < NChans
          /\ \E c \in Chans : chans' = Append(chans, c)
          /\ UNCHANGED <<info, req, list, done>>
       \/ /\ Len(info) = NPeers
          /\ req' \in SUBSET Feats
          /\ list' \in (IF Gen THEN {"ok"} ELSE {"ok", "err"})
          /\ done' = TRUE
          /\ Gen => Len(chans) = NChans
          /\ UNCHANGED <<info, chans>>

Tell ==
    /\ Gen /\ done /\ ~over /\ over' = TRUE
    /\ PrintT(<<"WORLD", ToJson([info |-> info, chans |-> chans,
                                 req |-> AsSeq(req), list |-> list])>>)
    /\ UNCHANGED <<info, chans, req, list, done>>

Next == Build \/ Tell

A == Answer(req, list, chans, info)

\* C14, said in another way.
Good ==
    done =>
        /\ A.r = "OK" =>
            /\ list = "ok"
            /\ \E k \in 1..Len(chans) : chans[k].active /\ chans[k].p = A.intro
            /\ info[A.intro].kind = "ok" /\ info[A.intro].n > 0
            /\ \A f \in req : f % 2 = 0 => f \in Set(info[A.intro].feats)
            /\ \A k \in 1..Len(chans) :
                chans[k].active /\ Eligible(info[chans[k].p], req)
                    => info[chans[k].p].n <= info[A.intro].n
            /\ \A k \in 1..Len(chans) :
                (/\ chans[k].active /\ Eligible(info[chans[k].p], req)
                 /\ info[chans[k].p].n = info[A.intro].n)
                    => \E j \in 1..k : chans[j].active /\ chans[j].p = A.intro
        /\ A.r # "OK" =>
            \/ list = "err"
            \/ \A k \in 1..Len(chans) :
                chans[k].active => ~Eligible(info[chans[k].p], req)
            \/ \E k \in 1..Len(chans) :
                chans[k].active /\ info[chans[k].p].kind = "error"

\* Odd features never matter.
OddIrrelevant ==
    done => A = Answer({f \in req : f % 2 = 0}, list, chans, info)
=============================================================================
