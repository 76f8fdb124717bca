----------------------------- MODULE OnionSize -----------------------------
(* What an onion message can carry: BOLT 4 sizes.                            *)
(*                                                                           *)
(* A request is described by                                                 *)
(*   hops   number of unblinded nodes on the way, including the destination  *)
(*          or the introduction node                                         *)
(*   blind  sizes of the encrypted data of the blinded destination's hops,   *)
(*          empty for a clear destination                                    *)
(*   rp     sizes of the encrypted data of the reply path's hops, empty if   *)
(*          there is no reply path                                           *)
(*   pl     final payloads: [ts |-> size of the encoded type, len]           *)
EXTENDS Naturals, Sequences

MaxHops == 27
Room == 1300
Key == 33
Mac == 32       \* of each hop
Tag == 16       \* of encrypted data

RECURSIVE SumTo(_, _, _)
SumTo(f(_), s, n) == IF n = 0 THEN 0 ELSE f(s[n]) + SumTo(f, s, n - 1)
Sum(f(_), s) == SumTo(f, s, Len(s))

BigSize(n) == IF n < 253 THEN 1 ELSE IF n < 65536 THEN 3 ELSE 5
Rec(ts, len) == ts + BigSize(len) + len

\* An empty record of encrypted data is left out.
EncRec(len) == IF len = 0 THEN 0 ELSE Rec(1, len)

PathHop(len) == Key + 2 + len
Path(enc) == 2 * Key + 1 + Sum(PathHop, enc)

PayloadRec(p) == Rec(p.ts, p.len)

\* The records that only the recipient gets.
Final(r) ==
    (IF r.rp = <<>> THEN 0 ELSE Rec(1, Path(r.rp))) + Sum(PayloadRec, r.pl)

Hop(len) == BigSize(len) + len + Mac

\* Encrypted data of the unblinded nodes: the next node, and the blinding point
\* to go on with at the point where the blinded route begins. The introduction
\* node of a blinded destination has its data already.
Clear(r) == IF r.blind = <<>> THEN r.hops ELSE r.hops - 1
NextRec == Rec(1, Key)
EncOf(r, i) ==
    IF i < Clear(r) THEN NextRec + Tag
    ELSE IF r.blind = <<>> THEN Tag
    ELSE 2 * NextRec + Tag

RECURSIVE ClearSize(_, _)
ClearSize(r, i) ==
    IF i = 0 THEN 0
    ELSE ClearSize(r, i - 1) +
         Hop(EncRec(EncOf(r, i)) +
             (IF r.blind = <<>> /\ i = r.hops THEN Final(r) ELSE 0))

RECURSIVE BlindSize(_, _)
BlindSize(r, i) ==
    IF i = 0 THEN 0
    ELSE BlindSize(r, i - 1) +
         Hop(EncRec(r.blind[i]) +
             (IF i = Len(r.blind) THEN Final(r) ELSE 0))

Hops(r) == Clear(r) + Len(r.blind)
Size(r) == ClearSize(r, Clear(r)) + BlindSize(r, Len(r.blind))

Fits(r) ==
    /\ Hops(r) <= MaxHops
    /\ Len(r.rp) <= 255
    /\ Size(r) <= Room
=============================================================================
