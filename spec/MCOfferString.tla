--------------------------- MODULE MCOfferString ---------------------------
(* All strings up to a length.                                                *)
EXTENDS OfferString, TLC, Json

CONSTANTS Use, MaxLen, Gen

VARIABLES str, over
vars == <<str, over>>

Init == str = <<>> /\ over = FALSE
Next ==
    /\ Len(str) < MaxLen /\ over' = over
    /\ \E c \in Use : str' = Append(str, c)
    /\ Gen => PrintT(<<"STR", ToJson(str')>>)

\* The same, not read from left to right.
First == CHOOSE i \in 1..Len(str) : str[i] # "s"
            /\ \A j \in 1..(i - 1) : str[j] = "s"
Last == CHOOSE i \in 1..Len(str) : str[i] # "s"
            /\ \A j \in (i + 1)..Len(str) : str[j] = "s"
Blank == \A i \in 1..Len(str) : str[i] = "s"
Said ==
    /\ ~Blank
    /\ \A i \in First..Last :
        /\ str[i] \in {"C", "+", "s"}
        /\ str[i] = "+" =>
            /\ i > First /\ str[i - 1] = "C"
            /\ \E j \in (i + 1)..Last :
                str[j] = "C" /\ \A k \in (i + 1)..(j - 1) : str[k] = "s"
        /\ str[i] = "s" =>
            \E j \in First..(i - 1) :
                str[j] = "+" /\ \A k \in (j + 1)..i : str[k] = "s"
Same == Joined(str) = Said
\* Whitespace around never matters, joins between characters never do.
Around == Joined(str) = Joined(<<"s">> \o str \o <<"s">>)
Joins ==
    \A i \in 1..(Len(str) - 1) :
        str[i] = "C" /\ str[i + 1] = "C" =>
            Joined(str) = Joined(SubSeq(str, 1, i) \o <<"+", "s">> \o
                                 SubSeq(str, i + 1, Len(str)))
=============================================================================
