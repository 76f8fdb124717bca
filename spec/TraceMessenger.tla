--------------------------- MODULE TraceMessenger ---------------------------
(* Validates recorded executions of the real Messenger against Messenger.    *)
EXTENDS Messenger, TraceLib

tvars == <<vars, ti, l>>

MsgOf(i) == Traces[ti].msgs[i]

TInit == Init /\ TraceInit

ECall == Is("call") /\ Call(Ev[l].c, Ev[l].op, Ev[l].t)
ERet == Is("ret") /\ Return(Ev[l].c, Ev[l].r)
EOffer == Is("offer") /\ Offer(MsgOf(Ev[l].m))
EFail == Is("fail") /\ Offer(Fail)
ESub == Is("sub") /\ Subscribe(Ev[l].r = "ok")
EHin ==
    /\ Is("hin")
    /\ HandlerEnter(Ev[l].h)
    \* It gets what the message carries for this type.
    /\ LET m == cur[1] IN
        /\ m.pl[pos].t = Ev[l].t
        /\ m.pl[pos].v = Ev[l].v
        /\ m.rp = Ev[l].rp
        /\ m.ed = Ev[l].ed
EHout == Is("hout") /\ HandlerReturn(Ev[l].r = "ok")
EFwd ==
    /\ Is("fwd") /\ RelayEnter
    /\ cur[1].on = Ev[l].m /\ cur[1].to = Ev[l].to /\ cur[1].bl = Ev[l].bl
    /\ Ev[l].ty
\* Nobody gives up on lnd because it takes its time.
EFwdRet == Is("fwdret") /\ RelayReturn /\ (Ev[l].r = "gone" => quit)
ECb == Is("cb") /\ Callback /\ Ev[l].r
EQuiet == Is("quiet") /\ Quiet /\ UNCHANGED vars

Silent == More /\ Internal /\ UNCHANGED <<ti, l>>

TNext == ECall \/ ERet \/ EOffer \/ EFail \/ ESub \/ EHin \/ EHout \/ EFwd
         \/ EFwdRet \/ ECb \/ EQuiet \/ Silent

TypeOKT == TypeOK /\ Exclusive /\ CallbackOnce /\ StoppedIsIdle /\ RunsRegistered
=============================================================================
