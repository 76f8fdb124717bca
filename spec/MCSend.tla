------------------------------- MODULE MCSend -------------------------------
(* The algorithm of a send step by step, against every behaviour of lnd: each *)
(* of its steps is one that Send allows. The same exploration generates the   *)
(* scripts that are replayed into the real code. With Free, instead of the    *)
(* algorithm everything that Send allows is explored.                         *)
EXTENDS Send, TLC, Json, FiniteSets

CONSTANTS Free, Polls, MaxLen

VARIABLES pc, script, wrong, hist
mcvars == <<vars, pc, script, wrong, hist>>

Reqs == [valid : BOOLEAN, direct : BOOLEAN, hops : {1, 2, 30},
         blind : {<<>>, <<50>>}, rp : {<<>>}, pl : {<<>>}]

FreeReqs ==
    {r \in Reqs : /\ r.blind = <<>> /\ r.hops # 2
                  /\ ~r.valid => r.direct
                  /\ r.direct \/ ~r.valid => r.hops = 1}

MCInit == Init /\ pc = "idle" /\ script = <<>> /\ wrong = FALSE /\ hist = <<>>

Note(r) == script' = Append(script, r)

\* A step of the algorithm that has to be a step of Send.
Do(A, at, n) ==
    /\ pc = at
    /\ IF ENABLED A THEN A /\ wrong' = wrong
                    ELSE wrong' = TRUE /\ UNCHANGED vars
    /\ pc' = n /\ UNCHANGED hist

Start ==
    \E r \in Reqs :
        /\ r.direct => r.hops = 1
        /\ Do(Call(r), "idle", IF ~r.valid THEN "refuse"
                               ELSE IF r.direct THEN "list" ELSE "query")
        /\ Note([k |-> "call", r |-> "", req |-> r])

AlgList ==
    \E r \in {"yes", "no", "err", "cancel"} :
        /\ IF r = "cancel"
           THEN pc = "list" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE Do(List(r, TRUE), "list",
                   IF r = "yes" THEN "wire"
                   ELSE IF r = "no" THEN "info" ELSE "fail")
        /\ Note([k |-> "list", r |-> r])

AlgInfo ==
    \E r \in {"addr", "empty", "err", "cancel"} :
        /\ IF r = "cancel"
           THEN pc = "info" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE Do(Info(TRUE, r), "info", IF r = "addr" THEN "conn" ELSE "fail")
        /\ Note([k |-> "info", r |-> r])

AlgConn ==
    \E r \in {"ok", "err", "cancel"} :
        /\ IF r = "cancel"
           THEN pc = "conn" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE Do(Connect(TRUE, TRUE, TRUE, r), "conn",
                   IF r = "ok" THEN "poll" ELSE "fail")
        /\ Note([k |-> "conn", r |-> r])

AlgPoll ==
    \E r \in {"yes", "no", "err", "cancel", "wait"} :
        /\ IF r = "cancel"
           THEN pc = "poll" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE IF r = "wait"
           \* Cancelled after a poll, before the next one.
           THEN /\ pc = "poll" /\ polls > 0 /\ Cancel /\ pc' = "fail"
                /\ UNCHANGED <<wrong, hist>>
           ELSE Do(List(r, TRUE), "poll",
                   IF r = "yes" THEN "wire"
                   ELSE IF r = "err" \/ polls = Polls - 1 THEN "fail"
                   ELSE "poll")
        /\ Note([k |-> "list", r |-> r])

AlgQuery ==
    \E r \in {"ok", "noroute", "bad", "err", "cancel"} :
        /\ IF r = "cancel"
           THEN pc = "query" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE Do(Query(TRUE, TRUE, r), "query",
                   IF r = "ok" THEN "wire"
                   ELSE IF r = "noroute" THEN "noroute" ELSE "fail")
        /\ Note([k |-> "query", r |-> r])

AlgWire ==
    pc = "wire" /\
    IF ~Fits(R)
    THEN pc' = "fail" /\ UNCHANGED <<vars, script, wrong, hist>>
    ELSE \E r \in {"ok", "err", "cancel"} :
        /\ IF r = "cancel"
           THEN pc = "wire" /\ Cancel /\ pc' = "fail" /\ UNCHANGED <<wrong, hist>>
           ELSE Do(Wire(TRUE, TRUE, r), "wire",
                   IF r = "ok" THEN "done" ELSE "fail")
        /\ Note([k |-> "wire", r |-> r])

End(at, code) ==
    /\ Do(Return(code), at, "end")
    /\ PrintT(<<"SCRIPT", ToJson(script)>>) = TRUE
    /\ UNCHANGED script

AlgNext ==
    \/ Start \/ AlgList \/ AlgInfo \/ AlgConn \/ AlgPoll \/ AlgQuery \/ AlgWire
    \/ End("refuse", "InvalidArgument") \/ End("noroute", "NotFound")
    \/ End("fail", "Internal") \/ End("done", "OK")

\* hist: what happened, as a sequence of steps.
Step(e) == hist' = Append(hist, e)
FreeNext ==
    /\ UNCHANGED <<pc, script, wrong>>
    /\ Len(hist) < MaxLen
    /\ \/ \E r \in FreeReqs : hist = <<>> /\ Call(r) /\ Step("call")
       \/ Cancel /\ ~cancelled /\ Step("cancel")
       \/ \E r \in {"yes", "no", "err"}, far \in BOOLEAN :
            /\ List(r, far) /\ Step("list-" \o r)
            \* Without a wait in between only where it makes a difference.
            /\ far = (conn = "ok" /\ polls > 0)
            /\ conn = "none" /\ last = r => r = "err"
       \/ \E r \in {"addr", "empty", "err"}, t \in BOOLEAN :
            Info(t, r) /\ Step("info") /\ info = "none"
       \/ \E r \in Outcome, t, f, p \in BOOLEAN :
            Connect(t, f, p, r) /\ Step("conn-" \o r)
       \/ \E r \in {"ok", "noroute", "bad", "err"}, t, f \in BOOLEAN :
            Query(t, f, r) /\ Step("query") /\ route = "none"
       \/ \E r \in Outcome, to, w \in BOOLEAN :
            Wire(to, w, r) /\ Step("wire-" \o r)
       \/ \E r \in {"OK", "NotFound", "Internal", "InvalidArgument",
                    "Canceled"} : Return(r) /\ Step("ret-" \o r)

MCNext == IF Free THEN FreeNext ELSE AlgNext

NothingWrong == ~wrong

\* The properties, in terms of what happened.
Has(e) == \E i \in 1..Len(hist) : hist[i] = e
Cnt(S) == Cardinality({i \in 1..Len(hist) : hist[i] \in S})
At(S) == {i \in 1..Len(hist) : hist[i] \in S}
ConnS == {"conn-ok", "conn-err"}
WireS == {"wire-ok", "wire-err"}
ListS == {"list-yes", "list-no", "list-err"}

OneConnection == Cnt(ConnS) <= 1
ConnectOnlyIfAbsent ==
    \A i \in At(ConnS) : \E j \in 1..(i - 1) : hist[j] = "list-no"
OneMessage == Cnt(WireS) <= 1
SentIfOK == Has("ret-OK") <=> Has("wire-ok") /\ ~Running
NothingSentIfFailed ==
    Has("ret-NotFound") \/ Has("ret-InvalidArgument") => Cnt(WireS) = 0
\* The target was seen, if there was a need to connect, after that.
SeenFirst ==
    \A i \in At(WireS) : \A k \in At(ConnS) :
        \E j \in At({"list-yes"}) : k < j /\ j < i
Bounded ==
    \A k \in At({"conn-ok"}) :
        Cardinality({j \in At({"list-no"}) : j > k}) <= MaxPolls
NothingAfterFailure ==
    \A i \in At({"list-err", "conn-err", "cancel"}) :
        ~\E j \in At(WireS \cup ConnS) : j > i /\ hist[i] # "cancel"
RefusedUntouched == Has("ret-InvalidArgument") => Len(hist) <= 3
=============================================================================
