------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Encodings: payloads of onions, onion messages, and the data that is      *)
(* encrypted for the hops of a blinded route.                               *)
(*                                                                         *)
(* Bytes appear as they read: a stream is the sequence of its records [t,   *)
(* v, n, key, reply] - type, value, length, whether the value is a public   *)
(* key, and the value read as a reply path - and how it ends: "clean",      *)
(* "short" (in the middle of a record), "strange" (a number that isn't      *)
(* written as short as possible).  Types are 64 bit numbers, as four        *)
(* digits.  The value "" is the empty one.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

T(n) == <<0, 0, 0, n>>

Less(a, b) ==
    \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

MaxRecord == 65535

Final(t) == ~Less(t, T(64))
Even(t) == t[4] % 2 = 0

Range(s) == {s[i] : i \in 1..Len(s)}

\* A reply path is <<>> if there is none, or else
\* <<[first, blinding, hops]>>, with hops [id, data, n].
NoPath == <<>>

---------------------------------------------------------------------------
(* Payloads: [reply, enc, encn, finals], finals a sequence of [t, v, n].    *)

PathSize(p) ==
    LET h == p.hops
        RECURSIVE Sum(_)
        Sum(i) == IF i > Len(h) THEN 0 ELSE 35 + h[i].n + Sum(i + 1)
    IN  67 + Sum(1)

Distinct(f) == \A i, j \in 1..Len(f) : i # j => f[i].t # f[j].t

Encodable(p) ==
    /\ \A i \in 1..Len(p.finals) : Final(p.finals[i].t)
    /\ Distinct(p.finals)
    /\ p.reply # NoPath =>
        /\ Len(p.reply[1].hops) \in 1..255
        /\ \A i \in 1..Len(p.reply[1].hops) : p.reply[1].hops[i].n <= 65535

\* What can't be read back by anybody need not be refused.
Huge(p) ==
    \/ p.encn > MaxRecord
    \/ \E i \in 1..Len(p.finals) : p.finals[i].n > MaxRecord
    \/ p.reply # NoPath /\ PathSize(p.reply[1]) > MaxRecord

\* Sorted by type.
RECURSIVE Sorted(_)
Sorted(S) ==
    IF S = {} THEN <<>>
    ELSE LET x == CHOOSE x \in S : \A y \in S : ~Less(y.t, x.t)
         IN  <<x>> \o Sorted(S \ {x})

\* The records of the encoding: [t, v, reply].
PathRecord(r) == [t |-> T(2), v |-> "", reply |-> r]
Plain(t, v) == [t |-> t, v |-> v, reply |-> NoPath]
RecordsWith(p, enc) ==
    (IF p.reply = NoPath THEN <<>> ELSE <<PathRecord(p.reply)>>) \o enc \o
    Sorted({Plain(f.t, f.v) : f \in Range(p.finals)})
Records(p) ==
    RecordsWith(p, IF p.enc = "" THEN <<>> ELSE <<Plain(T(4), p.enc)>>)
\* Data without any bytes may be written as well: it reads the same.
Encodings(p) ==
    {Records(p)} \cup
    (IF p.enc = "" THEN {RecordsWith(p, <<Plain(T(4), "")>>)} ELSE {})

\* The same payload, whatever order it was written in.
Canon(p) ==
    [reply |-> p.reply, enc |-> p.enc,
     finals |-> Sorted({[t |-> f.t, v |-> f.v] : f \in Range(p.finals)})]

\* A record as it's read.
Seen(r) == IF r.t = T(2) THEN PathRecord(r.reply) ELSE Plain(r.t, r.v)

---------------------------------------------------------------------------
(* Decoding *)

Increasing(rs) ==
    \A i \in 1..(Len(rs) - 1) : Less(rs[i].t, rs[i + 1].t)

WellFormed(s) ==
    /\ s.end = "clean" /\ Increasing(s.recs)
    /\ \A i \in 1..Len(s.recs) : s.recs[i].n <= MaxRecord

\* A record of the type of a reply path holds one, with hops.
PathsRead(s) ==
    \A i \in 1..Len(s.recs) :
        s.recs[i].t = T(2) =>
            s.recs[i].reply # NoPath /\ Len(s.recs[i].reply[1].hops) > 0

Readable(s) == WellFormed(s) /\ PathsRead(s)

\* There are types that nobody knows, which may not be ignored. Whether they
\* are is left open.
Foreign(s, known) ==
    \E i \in 1..Len(s.recs) :
        /\ Even(s.recs[i].t) /\ ~Final(s.recs[i].t)
        /\ s.recs[i].t \notin known

One(s, t, f(_), none) ==
    IF \E r \in Range(s.recs) : r.t = t
    THEN f(CHOOSE r \in Range(s.recs) : r.t = t) ELSE none

Value(r) == r.v
Path(r) == r.reply
Payload(s) ==
    [reply |-> One(s, T(2), Path, NoPath),
     enc |-> One(s, T(4), Value, ""),
     finals |-> Sorted({[t |-> r.t, v |-> r.v] :
                        r \in {x \in Range(s.recs) : Final(x.t)}})]

\* Results are <<>> for an error, or else <<what was read>>.
PayloadResults(s) ==
    IF ~Readable(s) THEN {<<>>}
    ELSE {<<Payload(s)>>} \cup
         (IF Foreign(s, {T(2), T(4)}) THEN {<<>>} ELSE {})

---------------------------------------------------------------------------
(* Data for hops: [next, override], "" if there is none. *)

DataRecords(d) ==
    (IF d.next = "" THEN <<>> ELSE <<Plain(T(4), d.next)>>) \o
    (IF d.override = "" THEN <<>> ELSE <<Plain(T(8), d.override)>>)

Data(s) == [next |-> One(s, T(4), Value, ""),
            override |-> One(s, T(8), Value, "")]

DataResults(s) ==
    IF \/ ~WellFormed(s)
       \/ \E r \in Range(s.recs) : r.t \in {T(4), T(8)} /\ ~r.key
    THEN {<<>>}
    ELSE {<<Data(s)>>} \cup
         (IF \E r \in Range(s.recs) : Even(r.t) /\ r.t \notin {T(4), T(8)}
          THEN {<<>>} ELSE {})

---------------------------------------------------------------------------
(* Messages: [key, onion].  As bytes: a key, a length, the onion.  What is  *)
(* read: [ok, key, onion, rest]: whether all is there, and is there more.   *)

MessageResults(m) ==
    IF ~m.ok THEN {<<>>}
    ELSE {<<[key |-> m.key, onion |-> m.onion]>>} \cup
         (IF m.rest THEN {<<>>} ELSE {})
=============================================================================
