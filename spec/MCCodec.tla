------------------------------ MODULE MCCodec ------------------------------
(* All small payloads and streams, and what holds for all of them.            *)
EXTENDS Codec, TLC, Json

CONSTANTS Types, MaxFinals, MaxRecs, Gen

VARIABLES mode, p, s
vars == <<mode, p, s>>

Big == <<65535, 65535, 65535, 65535>>
Ty(x) == IF x = 0 THEN Big ELSE T(x)

Hop(i) == [id |-> "k", data |-> IF i = 1 THEN "" ELSE "d",
           n |-> IF i = 1 THEN 0 ELSE 1]
PathOf(n) == [first |-> "f", blinding |-> "b", hops |-> [i \in 1..n |-> Hop(i)]]
Paths == {NoPath} \cup {<<PathOf(n)>> : n \in 0..2}

None == [reply |-> NoPath, enc |-> "", encn |-> 0, finals |-> <<>>]
Empty == [recs |-> <<>>, end |-> "clean"]

Init ==
    \/ /\ mode = "payload" /\ s = Empty
       /\ \E r \in Paths, e \in {"", "e"} :
            p = [None EXCEPT !.reply = r, !.enc = e]
    \/ mode = "stream" /\ p = None /\ \E e \in {"clean", "short", "strange"} :
            s = [Empty EXCEPT !.end = e]

Say == Gen => PrintT(<<"CASE", ToJson([mode |-> mode, p |-> p', s |-> s'])>>)

AddFinal ==
    /\ mode = "payload" /\ Len(p.finals) < MaxFinals
    /\ \E t \in Types, v \in {"", "v"} :
        p' = [p EXCEPT !.finals =
                Append(@, [t |-> Ty(t), v |-> v, n |-> IF v = "" THEN 0 ELSE 1])]
    /\ UNCHANGED <<mode, s>> /\ Say

AddRecord ==
    /\ mode = "stream" /\ Len(s.recs) < MaxRecs
    /\ \E t \in Types, v \in {"", "v"}, r \in Paths, k \in BOOLEAN :
        \* (The limit of a record's size is tried elsewhere.)
        /\ t # 2 => r = NoPath
        /\ t \notin {4, 8} => ~k
        /\ r # NoPath \/ k => v = "v"
        /\ s' = [s EXCEPT !.recs =
                    Append(@, [t |-> Ty(t), v |-> v, key |-> k, reply |-> r,
                               n |-> IF v = "" THEN 0 ELSE 1])]
    /\ UNCHANGED <<mode, p>> /\ Say

Next == AddFinal \/ AddRecord

---------------------------------------------------------------------------
Stream(rs) ==
    [end |-> "clean",
     recs |-> [i \in 1..Len(rs) |->
        [t |-> rs[i].t, v |-> rs[i].v, reply |-> rs[i].reply, key |-> TRUE,
         n |-> 1]]]

\* C25: what is encoded is what is read, whatever the order.
RoundTrip ==
    mode = "payload" /\ Encodable(p) =>
        \A rs \in Encodings(p) :
            Readable(Stream(rs)) /\ PayloadResults(Stream(rs)) = {<<Canon(p)>>}
\* And what is read encodes as something that reads the same.
Full(c) == [reply |-> c.reply, enc |-> c.enc, encn |-> 0,
            finals |-> [i \in 1..Len(c.finals) |->
                [t |-> c.finals[i].t, v |-> c.finals[i].v, n |-> 0]]]
Again ==
    mode = "stream" /\ Readable(s) =>
        LET q == Full(Payload(s))
        IN  Encodable(q) /\ PayloadResults(Stream(Records(q))) = {<<Payload(s)>>}
\* No part of an encoding reads as all of it, and what isn't whole is refused.
Parts ==
    mode = "payload" /\ Encodable(p) =>
        LET rs == Records(p)
        IN  \A i \in 0..(Len(rs) - 1) :
                /\ <<Canon(p)>> \notin
                        PayloadResults(Stream(SubSeq(rs, 1, i)))
                /\ PayloadResults([Stream(SubSeq(rs, 1, i))
                                   EXCEPT !.end = "short"]) = {<<>>}
Refused ==
    mode = "payload" =>
        ((\E f \in Range(p.finals) : Less(f.t, T(64))) => ~Encodable(p))
Deterministic ==
    mode = "stream" => Cardinality(PayloadResults(s)) = 1 \/ Foreign(s, {T(2), T(4)})
DataTrip ==
    mode = "stream" =>
        \A r \in DataResults(s) :
            r # <<>> => DataResults(Stream(DataRecords(r[1]))) = {r}
=============================================================================
