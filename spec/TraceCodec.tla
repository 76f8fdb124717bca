----------------------------- MODULE TraceCodec -----------------------------
(* Validates what real code encoded and decoded.                              *)
EXTENDS Codec, TraceLib

VARIABLE asked
TInit == asked = 0 /\ TraceInit

E == Ev[l]

SeenAll(s) == [i \in 1..Len(s) |-> Seen(s[i])]

\* E.p was encoded; E.out.recs and E.out.end is what the bytes read as.
Encode ==
    /\ Is("encode")
    /\ IF Encodable(E.p)
       THEN IF E.ok
            THEN /\ E.out.end = "clean"
                 /\ SeenAll(E.out.recs) \in Encodings(E.p)
            ELSE Huge(E.p)
       ELSE ~E.ok
    /\ asked' = asked + 1

\* E.s was decoded: E.r
Decode ==
    /\ Is("decode") /\ E.r \in PayloadResults(E.s)
    /\ asked' = asked + 1

EncodeData ==
    /\ Is("encdata") /\ E.ok
    /\ E.out.end = "clean" /\ SeenAll(E.out.recs) = DataRecords(E.p)
    /\ asked' = asked + 1

DecodeData ==
    /\ Is("decdata") /\ E.r \in DataResults(E.s)
    /\ asked' = asked + 1

EncodeMsg ==
    /\ Is("encmsg") /\ E.ok = (E.n <= 65535)
    /\ E.ok => E.out.ok /\ ~E.out.rest /\ E.out.key = E.key
               /\ E.out.onion = E.onion
    /\ asked' = asked + 1

DecodeMsg ==
    /\ Is("decmsg") /\ E.r \in MessageResults(E.s)
    /\ asked' = asked + 1

TNext == Encode \/ Decode \/ EncodeData \/ DecodeData \/ EncodeMsg \/ DecodeMsg
TypeOKT == asked >= 0
=============================================================================
