------------------------------ MODULE Artifact ------------------------------
(* Offers, invoice requests and invoices as TLV streams that are written,     *)
(* signed and changed, and what decoding and validating them has to say.      *)
(*                                                                            *)
(* Values are names of real values; the harness has the bytes for them.       *)
EXTENDS Merkle, TLC

VARIABLES
    kind,   \* what the stream is meant to be
    recs,   \* the records but for the signature (type 240), in order
    sig,    \* the signature record: NoSig, a bad one, or a real one
    broken  \* how the stream isn't a stream of records, or "no"

avars == <<kind, recs, sig, broken>>

Kinds == {"offer", "request", "invoice"}

\* Known fields: type -> class of value.
Fields(k) ==
    CASE k = "offer" ->
        2 :> "hash" @@ 8 :> "tu64" @@ 10 :> "str" @@ 12 :> "feat" @@
        14 :> "time" @@ 20 :> "str" @@ 22 :> "tu64" @@ 24 :> "tu64" @@
        30 :> "xkey"
      [] k = "request" ->
        3 :> "hash" @@ 4 :> "hash" @@ 8 :> "tu64" @@ 12 :> "feat" @@
        32 :> "tu64" @@ 38 :> "xkey" @@ 39 :> "str" @@ 50 :> "bytes"
      [] k = "invoice" ->
        3 :> "hash" @@ 4 :> "hash" @@ 8 :> "tu64" @@ 10 :> "str" @@
        12 :> "feat" @@ 30 :> "key" @@ 32 :> "tu64" @@ 38 :> "key" @@
        39 :> "str" @@ 40 :> "u64" @@ 42 :> "hash" @@ 44 :> "u64" @@
        46 :> "u64" @@ 50 :> "bytes"

\* The field with the key that has to have signed.
KeyField(k) == CASE k = "offer" -> 30 [] k = "request" -> 38
                 [] k = "invoice" -> 30

Required(k) == CASE k = "offer" -> {10, 30}
                 [] k = "request" -> {4, 38}
                 [] k = "invoice" -> {8, 10, 30, 40, 42}

Good(c) ==
    CASE c = "hash" -> {"a", "b"}
      [] c = "tu64" -> {"0", "1", "2", "3"}
      [] c = "time" -> {"0", "1", "2", "3"}
      [] c = "u64" -> {"1", "2", "3"}
      [] c = "str" -> {"e", "a", "b", "l"}
      [] c = "bytes" -> {"e", "a", "b", "l"}
      [] c = "feat" -> {"e", "a", "b", "pad"}
      [] c = "xkey" -> {"k1", "k2", "k3"}
      [] c = "key" -> {"k1", "k2", "k3", "k1-", "k2-", "k3-"}
      [] c = "unknown" -> {"e", "a", "b", "l"}
Bad(c) ==
    CASE c = "hash" -> {"short", "long", "nothing"}
      [] c \in {"tu64", "time"} -> {"nonmin", "long"}
      [] c = "u64" -> {"short", "long", "nothing"}
      [] c = "xkey" -> {"off", "short", "long", "nothing"}
      [] c = "key" -> {"off", "short", "long", "prefix", "nothing"}
      [] OTHER -> {}

Class(k, t) == IF t \in DOMAIN Fields(k) THEN Fields(k)[t] ELSE "unknown"

\* The key behind the name of a point.
Key(v) == CASE v \in {"k1", "k1-"} -> "k1" [] v \in {"k2", "k2-"} -> "k2"
            [] v \in {"k3", "k3-"} -> "k3" [] OTHER -> "?"

\* What a value is once decoded; "-" is as if it wasn't there.
Seen(c, v) ==
    CASE c = "tu64" /\ v = "0" -> "-"
      [] c \in {"str", "feat", "bytes"} /\ v = "e" -> "-"
      [] c = "feat" /\ v = "pad" -> "a"
      [] OTHER -> v

View(k, rs) ==
    LET f == SelectSeq(rs, LAMBDA r : /\ r.t \in DOMAIN Fields(k)
                                      /\ Seen(Fields(k)[r.t], r.v) # "-")
    IN [i \in 1..Len(f) |-> <<f[i].t, Seen(Fields(k)[f[i].t], f[i].v)>>]

\* What a caller that asks for the fields of an offer is told (C26). The chain
\* isn't part of it, and zero stands for no expiry.
Told(rs) == SelectSeq(View("offer", rs),
                      LAMBDA f : f[1] # 2 /\ f # <<14, "0">>)

Has(rs, t) == \E i \in 1..Len(rs) : rs[i].t = t
Val(rs, t) == rs[CHOOSE i \in 1..Len(rs) : rs[i].t = t].v
Num(rs, t) == IF Has(rs, t)
              THEN CASE Val(rs, t) = "1" -> 1 [] Val(rs, t) = "2" -> 2
                     [] Val(rs, t) = "3" -> 3 [] OTHER -> 0
              ELSE 0

NoSig == [kind |-> "none"]
\* Not a signature at all, too short to be one, a signature with a flipped bit.
BadSig == {[kind |-> "garbage"], [kind |-> "short"], [kind |-> "flipped"],
           [kind |-> "zero"]}
Signature(key, as, rs) ==
    [kind |-> "real", key |-> key, as |-> as, over |-> Root(rs)]

\* Decodes at all.
Decodes(k, rs, s, br) ==
    /\ br = "no"
    /\ s.kind # "short"
    /\ NonSig(rs) # <<>>
    /\ \A i \in 1..Len(rs) : rs[i].v \in Good(Class(k, rs[i].t))

\* Has the fields it must have (C20).
Present(k, rs) ==
    /\ \A t \in Required(k) :
        Has(rs, t) /\ Seen(Fields(k)[t], Val(rs, t)) # "-"
    /\ k = "offer" /\ Num(rs, 22) # 0 /\ Num(rs, 24) # 0
        => Num(rs, 22) <= Num(rs, 24)

\* The signature covers exactly this (C19).
SigOK(k, rs, s) ==
    /\ s.kind = "real"
    /\ s.key = Key(Val(rs, KeyField(k)))
    /\ s.as = k
    /\ s.over = Root(rs)

Valid(k, rs, s, br) ==
    /\ Decodes(k, rs, s, br)
    /\ Present(k, rs)
    /\ IF s.kind = "none" THEN k # "request" ELSE SigOK(k, rs, s)

\* ------------------------------------------------------------------- steps
Insert(rs, r) ==
    SelectSeq(rs, LAMBDA x : x.t < r.t) \o <<r>> \o
    SelectSeq(rs, LAMBDA x : x.t > r.t)
Remove(rs, t) == SelectSeq(rs, LAMBDA x : x.t # t)

Start(k, rs) == kind = k /\ recs = rs /\ sig = NoSig /\ broken = "no"

Put(t, v) ==
    /\ recs' = Insert(recs, [t |-> t, v |-> v])
    /\ UNCHANGED <<kind, sig, broken>>
Drop(t) ==
    /\ recs' = Remove(recs, t)
    /\ UNCHANGED <<kind, sig, broken>>
\* Signed over what is there now.
Sign(key, as) ==
    /\ sig' = Signature(key, as, recs)
    /\ UNCHANGED <<kind, recs, broken>>
Spoil(s) ==
    /\ sig' = [kind |-> s]
    /\ UNCHANGED <<kind, recs, broken>>
Break(how) ==
    /\ broken' = how
    /\ UNCHANGED <<kind, recs, sig>>
=============================================================================
