----------------------------- MODULE MCArtifact -----------------------------
(* All short histories of small artifacts; longer ones to be replayed.        *)
EXTENDS Artifact, Json

CONSTANTS Gen,      \* generate, with a choice of the kind of step first
          MaxSteps,
          PutTypes, \* types to put and to remove
          Extra,    \* unknown types that a stream may start with
          SigRange, \* more types to put: records among the signatures
          Breaks,
          InKinds

VARIABLES hist,     \* steps so far
          mode,     \* the kind of the next step
          start,    \* what it started with
          signed    \* the records at the last proper signature
vars == <<kind, recs, sig, broken, hist, mode, start, signed>>

V(k, t) == IF t = KeyField(k) THEN "k1"
           ELSE CASE Class(k, t) = "hash" -> "a" [] Class(k, t) = "tu64" -> "2"
                  [] Class(k, t) = "time" -> "2" [] Class(k, t) = "u64" -> "2"
                  [] Class(k, t) = "key" -> "k3" [] OTHER -> "a"

RECURSIVE FromSet(_, _)
FromSet(k, S) ==
    IF S = {} THEN <<>>
    ELSE LET t == CHOOSE x \in S : \A y \in S : x <= y
         IN <<[t |-> t, v |-> V(k, t)]>> \o FromSet(k, S \ {t})

\* The least n of a set.
Least(S, n) == {x \in S : Cardinality({y \in S : y < x}) < n}

Bases(k) ==
    IF Gen
    THEN {FromSet(k, S) : S \in
            {{}, DOMAIN Fields(k), Required(k)}
            \cup {Required(k) \cup Least(Extra, n) :
                    n \in 0..Cardinality(Extra)}
            \cup {DOMAIN Fields(k) \cup Least(Extra, n) :
                    n \in 0..Cardinality(Extra)}}
    ELSE {FromSet(k, Required(k)), <<>>}

Init ==
    /\ \E k \in InKinds : \E rs \in Bases(k) :
        kind = k /\ recs = rs /\ start = rs
    /\ sig = NoSig /\ broken = "no" /\ hist = <<>> /\ mode = ""
    /\ signed = <<>>

Modes == {"good", "field", "bad", "drop", "sign", "missign", "spoil", "range",
          "unknown", "break", "decode"}

Choose ==
    /\ Gen /\ mode = "" /\ Len(hist) < MaxSteps /\ broken = "no"
    /\ mode' \in Modes
    /\ UNCHANGED <<kind, recs, sig, broken, hist, start, signed>>

\* A step of this mode is due.
Now(ms) == IF Gen THEN mode \in ms /\ mode' = "" ELSE mode' = mode
Did(h) == hist' = Append(hist, h) /\ start' = start

Types == PutTypes \cup Extra

Key1 == IF Has(recs, KeyField(kind)) THEN Key(Val(recs, KeyField(kind)))
        ELSE "k1"

StepSign ==
    \E key \in {"k1", "k2"} : \E as \in Kinds :
        /\ IF Gen THEN IF mode = "sign" THEN key = Key1 /\ as = kind
                       ELSE key # Key1 \/ as # kind
           ELSE TRUE
        /\ Now({"sign", "missign"})
        /\ recs # <<>>
        /\ Sign(key, as)
        /\ signed' = NonSig(recs)
        /\ Did([op |-> "sign", key |-> key, as |-> as])

StepPut ==
    \E t \in (IF Gen THEN DOMAIN Fields(kind) \cup Extra \cup SigRange
              ELSE PutTypes \cup SigRange) :
        \E v \in Good(Class(kind, t)) \cup Bad(Class(kind, t)) :
            /\ Now({"good", "field", "bad", "range", "unknown"})
            /\ Gen => CASE mode = "good" -> t \notin SigRange
                                         /\ v \in Good(Class(kind, t))
                        [] mode = "field" -> Has(recs, t)
                                         /\ v \in Good(Class(kind, t))
                        [] mode = "bad" -> v \in Bad(Class(kind, t))
                        [] mode = "range" -> t \in SigRange
                        [] mode = "unknown" -> t \in Extra
                        [] OTHER -> FALSE
            /\ Has(recs, t) => Val(recs, t) # v
            /\ Put(t, v)
            /\ signed' = signed
            /\ Did([op |-> "put", t |-> t, v |-> v])

StepDrop ==
    \E i \in 1..Len(recs) :
        /\ Now({"drop"})
        /\ Drop(recs[i].t)
        /\ signed' = signed
        /\ Did([op |-> "drop", t |-> recs[i].t])

StepSpoil ==
    \E s \in {"garbage", "short", "flipped", "zero", "none"} :
        /\ Now({"spoil"})
        /\ s = "flipped" => sig.kind = "real"
        /\ s # sig.kind
        /\ Spoil(s)
        /\ signed' = signed
        /\ Did([op |-> "spoil", s |-> s])

StepBreak ==
    \E b \in Breaks :
        /\ Now({"break"})
        /\ broken = "no" /\ (b = "swap" => Len(recs) > 1) /\ recs # <<>>
        /\ Break(b)
        /\ signed' = signed
        /\ Did([op |-> "break", how |-> b])

\* Skip a step that turned out not to be possible.
Skip ==
    /\ Gen /\ mode # ""
    /\ mode' = "" /\ UNCHANGED <<kind, recs, sig, broken, signed>>
    /\ hist' = Append(hist, [op |-> "none"]) /\ start' = start

Tell ==
    /\ Gen /\ mode = "" /\ (Len(hist) = MaxSteps \/ broken # "no")
    /\ mode' = "done"
    /\ PrintT(<<"ART", ToJson([kind |-> kind, start |-> start,
                               steps |-> hist])>>)
    /\ UNCHANGED <<kind, recs, sig, broken, hist, start, signed>>

Step == StepSign \/ StepPut \/ StepDrop \/ StepSpoil \/ StepBreak
Next ==
    IF Gen THEN Choose \/ Step \/ Tell \/ Skip
    ELSE Len(hist) < MaxSteps /\ broken = "no" /\ Step

View3 == <<kind, recs, sig, broken, Len(hist)>>

\* ---------------------------------------------------------------- properties
\* C19, without hashes: valid and signed means signed as exactly this.
Covered ==
    Valid(kind, recs, sig, broken) /\ sig.kind # "none" =>
        /\ sig.kind = "real" /\ sig.as = kind
        /\ signed = NonSig(recs)
        /\ \E i \in 1..Len(recs) : recs[i].t = KeyField(kind)
                                   /\ Key(recs[i].v) = sig.key
\* Records among the signatures change nothing.
RangeFree ==
    broken = "no" =>
        LET ns == NonSig(recs)
        IN Valid(kind, ns, sig, broken) = Valid(kind, recs, sig, broken)
           \/ \E i \in 1..Len(recs) :
                IsSig(recs[i]) /\ recs[i].v \notin Good("unknown")
\* C20, said from the outside.
Formed ==
    Valid(kind, recs, sig, broken) =>
        LET v == View(kind, recs)
            h(t) == \E i \in 1..Len(v) : v[i][1] = t
        IN CASE kind = "offer" -> h(10) /\ h(30)
             [] kind = "request" -> h(4) /\ h(38) /\ sig # NoSig
             [] kind = "invoice" -> h(8) /\ h(10) /\ h(30) /\ h(40) /\ h(42)
\* C26: a valid offer is told with a description and a node, and in whole: with
\* the chain it makes up all that the decoder knows of it.
AllTold ==
    kind = "offer" /\ Valid(kind, recs, sig, broken) =>
        LET t == Told(recs)
            v == View(kind, recs)
            tt == {t[i] : i \in 1..Len(t)}
            vv == {v[i] : i \in 1..Len(v)}
        IN /\ \E f \in tt : f[1] = 10
           /\ \E f \in tt : f[1] = 30
           /\ tt \subseteq vv
           /\ \A f \in vv \ tt : f[1] = 2 \/ f = <<14, "0">>
\* In order, each type once.
Ordered == \A i \in 1..(Len(recs) - 1) : recs[i].t < recs[i + 1].t
=============================================================================
