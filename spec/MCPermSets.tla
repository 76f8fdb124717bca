----------------------------- MODULE MCPermSets -----------------------------
(* Everything that a macaroon may allow, for every method.                    *)
EXTENDS Permissions, TLC, Json

VARIABLES todo
Universe(meth) ==
    {Op("peers", "write"), Op("peers", "read"), Op("offchain", "read"),
     Op("offchain", "write"), Op("uri", meth), Op("onchain", "read"),
     Op("uri", IF meth = "DecodeOffer" THEN "SendOnionMessage"
               ELSE "DecodeOffer")}

Next ==
    \E meth \in Methods : \E ops \in SUBSET Universe(meth) :
        /\ todo /\ todo' = FALSE /\ UNCHANGED vars
        /\ PrintT(<<"SET", ToJson([meth |-> meth, ops |-> ops])>>)
SInit == Init /\ todo = TRUE
=============================================================================
