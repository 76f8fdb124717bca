----------------------------- MODULE TraceSend -----------------------------
(* Validates recorded sends of the real server.                              *)
EXTENDS Send, TraceLib

CONSTANT MinGap     \* between polls, in ms

VARIABLE t          \* time of the last list of peers, or Late

tvars == <<vars, t, ti, l>>

TInit == Init /\ TraceInit /\ t = 0

E == Ev[l]
Keep == UNCHANGED t

ECall == Is("call") /\ Call(E.req) /\ Keep
\* Once a list has taken long it is open what the next ones' distance is
\* measured from.
Late == 0 - 1000000
EList == /\ Is("list")
         /\ List(E.r, E.t - t >= MinGap)
         /\ t' = IF t = Late \/ E.done - E.t > 300 THEN Late ELSE E.done
EInfo == Is("info") /\ Info(E.target, E.r) /\ Keep
EConn == Is("conn") /\ Connect(E.target, E.first, E.perm, E.r) /\ Keep
EQuery == Is("query") /\ Query(E.target, E.free, E.r) /\ Keep
EWire == Is("wire") /\ E.ty /\ Wire(E.to, E.whole, E.r) /\ Keep
ECancel == Is("cancel") /\ Cancel /\ Keep
ERet == Is("ret") /\ Return(E.r) /\ Keep
\* Nothing happens on behalf of a request that has ended, and all end.
EEnd == Is("end") /\ ~Running /\ UNCHANGED vars /\ Keep

TNext == ECall \/ EList \/ EInfo \/ EConn \/ EQuery \/ EWire \/ ECancel \/ ERet
         \/ EEnd

TypeOKT == polls <= MaxPolls
=============================================================================
