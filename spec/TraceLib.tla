------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications have in common. The input is a file with one *)
(* trace per line: the definition of the scenario, and the events in the      *)
(* order in which they were observed. A trace specification that extends this *)
(* module says which step of the system's specification each event is.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Budget     \* states to explore for one trace

VARIABLES ti, l     \* trace, next event

Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)
Ev == Traces[ti].ev

ASSUME \A i \in 1..(2 * NT) : TLCSet(i, 0)

TraceInit == ti \in 1..NT /\ l = 1

More == l <= Len(Ev)
Is(e) == More /\ Ev[l].e = e /\ l' = l + 1 /\ ti' = ti

\* Remember how far each trace could be matched, and do no more than needed.
Progress ==
    /\ TLCGet(ti) < Len(Ev)
    /\ TLCGet(NT + ti) <= Budget
    /\ TLCSet(NT + ti, TLCGet(NT + ti) + 1)
    /\ IF l - 1 > TLCGet(ti) THEN TLCSet(ti, l - 1) ELSE TRUE

\* Matched events and explored states of each trace.
Report ==
    PrintT(<<"MATCHED", ToJson([i \in 1..NT |->
                                <<TLCGet(i), TLCGet(NT + i)>>])>>)
=============================================================================
