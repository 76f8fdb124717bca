----------------------------- MODULE TraceSubs -----------------------------
(* Validates recorded executions of the real server's subscriptions.          *)
EXTENDS Subs, TraceLib, SequencesExt, FiniteSetsExt

tvars == <<vars, ti, l>>

MsgOf(i) == Traces[ti].msgs[i]

TInit == Init /\ TraceInit

ESub == Is("sub") /\ Subscribe(Ev[l].c, Ev[l].t)
ECancel == Is("cancel") /\ Cancel(Ev[l].c)
ERet == Is("ret") /\ Return(Ev[l].c, Ev[l].r)
EOffer == Is("offer") /\ Offer(MsgOf(Ev[l].m))
ESend == Is("send") /\ Send(Ev[l].c, Ev[l].v, Ev[l].rp)
ESendRet == Is("sendret") /\ SendReturn(Ev[l].c, Ev[l].r = "ok")
EStop == Is("stop") /\ Stop
EStopRet == Is("stopret") /\ StopReturn /\ Ev[l].r
EQuiet == Is("quiet") /\ Rest

---------------------------------------------------------------------------
(* What the rest of the trace tells about internal steps. A step is cut off   *)
(* only if the trace cannot be completed after it.                            *)

\* The hand-overs that each trace records, and how each subscription ended.
Sends == [i \in 1..Len(Traces) |->
            [c \in {Traces[i].ev[k].c : k \in
                        {j \in 1..Len(Traces[i].ev) :
                            Traces[i].ev[j].e = "sub"}} |->
                SetToSortSeq({j \in 1..Len(Traces[i].ev) :
                    Traces[i].ev[j].e = "send" /\ Traces[i].ev[j].c = c}, <)]]
Rets == [i \in 1..Len(Traces) |->
            [c \in DOMAIN Sends[i] |->
                LET R == {j \in 1..Len(Traces[i].ev) :
                            Traces[i].ev[j].e = "ret" /\ Traces[i].ev[j].c = c}
                IN  IF R = {} THEN "open"
                    ELSE Traces[i].ev[CHOOSE j \in R : TRUE].r]]

\* The hand-overs to c that are still to come.
Coming(c) == SelectSeq(Sends[ti][c], LAMBDA j : j >= l)

Ends == {"broken", "Canceled", "Aborted", "Unavailable"}

\* What is on its way to a subscription is what it will get; all of it, unless
\* the subscription ends.
Fits(s) ==
    LET f == Coming(s.c) IN
    /\ \A i \in 1..Len(s.q) :
        i <= Len(f) => Ev[f[i]].v = s.q[i].v /\ Ev[f[i]].rp = s.q[i].rp
    /\ Len(s.q) > Len(f) => Rets[ti][s.c] \in Ends
    /\ s.st \in {"low", "taken", "down", "left"} =>
        f = <<>> /\ Rets[ti][s.c] \in Codes(s) \cup {"open"}
    /\ s.st = "active" => Rets[ti][s.c] \in Ends \cup {"open"}

AllFit == \A s \in subs : Fits(s)

\* The values that only one message of the trace has.
Unique == [i \in 1..Len(Traces) |->
            LET V(k) == {Traces[i].msgs[k].pl[x].v :
                            x \in 1..Len(Traces[i].msgs[k].pl)}
                All == UNION {V(k) : k \in 1..Len(Traces[i].msgs)}
            IN  {v \in All \ {"empty"} :
                    Cardinality({k \in 1..Len(Traces[i].msgs) :
                                    v \in V(k)}) = 1}]
Expected(v, c) == \E j \in ToSet(Coming(c)) : Ev[j].v = v

\* The payloads of m from i on are not what c is still to get.
Spared(m, i, c) ==
    \A k \in i..Len(m.pl) :
        m.pl[k].v \in Unique[ti] => ~Expected(m.pl[k].v, c)

TakeFits ==
    LET m == Head(stream)
        ours == m.kind = "ours" /\ m.on \notin seen
    IN  \A c \in DOMAIN Sends[ti] :
            IF ours THEN \A k \in 1..Len(m.pl) :
                            (m.pl[k].v \in Unique[ti] /\ Expected(m.pl[k].v, c)) =>
                                \E s \in HandlerOf(m.pl[k].t) : s.c = c
            ELSE Spared(m, 1, c)

\* Messages need not be taken anymore if nothing is handed over and the next
\* rest is after the end of the event loop: taking them would only make other
\* steps impossible.
Useful ==
    \/ \E c \in DOMAIN Sends[ti] : Coming(c) # <<>>
    \/ LET Q == {j \in l..Len(Ev) : Ev[j].e = "quiet"}
           R == {j \in l..Len(Ev) : Ev[j].e = "stopret"}
       IN  IF quit = "ret" THEN FALSE
           ELSE IF R = {} THEN TRUE
           ELSE IF Q = {} THEN FALSE ELSE Min(Q) < Min(R)

FailFits == \A c \in DOMAIN Sends[ti] : Spared(cur[1], pos, c)

Sx(A) == More /\ A /\ UNCHANGED <<ti, l>> /\ AllFit'

\* TLC's depth first queue explores the last alternative first.
TNext ==
    \/ Sx(PushFail /\ FailFits)
    \/ \E s \in subs : Sx(Leave(s))
    \/ ESub \/ ECancel \/ EOffer \/ ESendRet \/ EStop
    \/ ERet \/ ESend \/ EStopRet \/ EQuiet
    \/ stream # <<>> /\ Useful = TRUE /\ TakeFits /\ Sx(TakeMessage)
    \/ \E s \in subs : Sx(Release(s)) \/ Sx(Register(s))
    \/ Sx(Push)

\* States that differ only in what will be dropped anyway are the same.
Seen ==
    <<{[s EXCEPT !.q = IF Len(@) > Len(Coming(s.c))
                       THEN Append(SubSeq(@, 1, Len(Coming(s.c))), "more")
                       ELSE @] : s \in subs}, cur, pos, stream, quit, ti, l>>

TypeOKT == Exclusive
=============================================================================
