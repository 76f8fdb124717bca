---------------------------- MODULE OfferString ----------------------------
(* Which strings are offers. A string is a sequence of tokens:                *)
(*   C  some characters of the string of an offer (all of them together are   *)
(*      the whole of it; the first C starts with the prefix)                  *)
(*   +  a join                                                                *)
(*   s  whitespace                                                            *)
(*   x  a printable character that isn't one of bech32                        *)
(*   n  something else: control characters, other alphabets                   *)
(*   W  bech32 characters in the other case                                   *)
EXTENDS Naturals, Sequences, FiniteSets

Tokens == {"C", "+", "s", "x", "n", "W"}

\* Read from left to right. "gap": the last was a join, maybe with whitespace.
Step(q, c) ==
    CASE q = "lead" -> (CASE c = "s" -> "lead" [] c = "C" -> "in"
                          [] OTHER -> "no")
      [] q = "in" -> (CASE c = "C" -> "in" [] c = "+" -> "gap"
                        [] c = "s" -> "trail" [] OTHER -> "no")
      [] q = "gap" -> (CASE c = "s" -> "gap" [] c = "C" -> "in"
                         [] OTHER -> "no")
      [] q = "trail" -> (IF c = "s" THEN "trail" ELSE "no")
      [] OTHER -> "no"

RECURSIVE Read(_, _)
Read(q, str) == IF str = <<>> THEN q ELSE Read(Step(q, Head(str)), Tail(str))

Joined(str) == Read("lead", str) \in {"in", "trail"}

\* All of it: the joins, the prefix, the case, what the data is.
\* hrp: "ok", "other" prefix, "none" (no separator)
\* data: "offer"; "invalid" (decodes, but isn't valid); "garbage" (doesn't
\* decode); "padding" (bits left that should be zero, or too many of them)
Accepts(str, hrp, data) == Joined(str) /\ hrp = "ok" /\ data = "offer"
=============================================================================
