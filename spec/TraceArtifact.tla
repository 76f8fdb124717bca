--------------------------- MODULE TraceArtifact ---------------------------
(* Validates what decoding and validation said about an artifact, after each  *)
(* change to it.                                                              *)
EXTENDS Artifact, TraceLib

CONSTANT Judge      \* "root", "sig", "form" or "rpc"

VARIABLE roots      \* for each root that was seen, what it is the root of

tvars == <<avars, roots>>

E == Ev[l]

TInit ==
    /\ kind = "" /\ recs = <<>> /\ sig = NoSig /\ broken = "no"
    /\ roots = <<>> /\ TraceInit

\* The code's answer to the stream as it is now: E.dec, E.valid, E.root (a
\* number for each root), E.own (is the root that of these records).
RootOK ==
    E.dec =>
        /\ E.own
        /\ IF E.root <= Len(roots)
           THEN roots[E.root] = NonSig(recs')
           ELSE \A i \in 1..Len(roots) : roots[i] # NonSig(recs')

\* Unknown even types may be a reason to refuse the whole.
Even == \E i \in 1..Len(recs') :
            recs'[i].t % 2 = 0 /\ Class(kind', recs'[i].t) = "unknown"
Refused == Even /\ ~E.valid

Answer ==
    LET dec == Decodes(kind', recs', sig', broken')
        here == dec /\ Present(kind', recs')
        ok == Valid(kind', recs', sig', broken')
    IN /\ roots' = IF E.dec /\ E.root = Len(roots) + 1
                   THEN Append(roots, NonSig(recs')) ELSE roots
       /\ Judge = "root" => RootOK /\ (ok => E.dec \/ Even)
       /\ Judge = "sig" => (here /\ sig'.kind # "none" => E.valid = ok \/ Refused)
       /\ Judge = "form" =>
            /\ E.valid = ok \/ Refused
            /\ E.dec => dec /\ E.fields = View(kind', recs')
            /\ E.dec => E.again
       \* C26: told is what the server said to this stream as a string.
       /\ Judge = "rpc" /\ kind' = "offer" =>
            \/ ~ok /\ E.rpc = "error"
            \/ Even /\ E.rpc = "error"
            \/ ok /\ E.rpc = "OK" /\ E.told = Told(recs') /\ E.toldsig

Begin ==
    /\ Is("begin") /\ kind = ""
    /\ kind' = E.kind /\ recs' = E.recs /\ UNCHANGED <<sig, broken>>
    /\ Answer

DoPut == Is("put") /\ Put(E.t, E.v) /\ Answer
DoDrop == Is("drop") /\ Drop(E.t) /\ Answer
DoSign == Is("sign") /\ Sign(E.key, E.as) /\ Answer
DoSpoil == Is("spoil") /\ Spoil(E.s) /\ Answer
DoBreak == Is("break") /\ Break(E.how) /\ Answer

TNext == Begin \/ DoPut \/ DoDrop \/ DoSign \/ DoSpoil \/ DoBreak
TypeOKT == kind \in Kinds \cup {""}
=============================================================================
