------------------------------ MODULE MCNetwork ------------------------------
(* Network with an environment of bounded activity: exhaustive checking and    *)
(* generation of schedules.                                                    *)
EXTENDS Network, TLC, Json

CONSTANTS MaxRoutes, MaxSubs, MaxSends, MaxArrivals, MaxFaults, MaxPath,
          MaxHops, MaxLen, Foreign

VARIABLES n, sched, over, got
\* n: budget used; got: what was handed over, [c, v, rp], in that order
mcvars == <<vars, n, sched, over, got>>

Gen == MaxLen > 0
Room == ~Gen \/ Len(sched) < MaxLen
Note(r) == sched' = IF Gen THEN Append(sched, r) ELSE sched
Types == IF Gen THEN 1..4 ELSE {1}

MCInit ==
    /\ Init /\ n = [r |-> 0, s |-> 0, b |-> <<>>, f |-> 0]
    /\ sched = <<>> /\ over = FALSE /\ got = <<>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

\* Paths of distinct nodes that don't lead through x.
RECURSIVE Paths(_, _)
Paths(S, k) ==
    IF k = 0 THEN {<<>>}
    ELSE {<<>>} \cup UNION {{<<x>> \o p : p \in Paths(S \ {x}, k - 1)} :
                                x \in S}
PathsTo(S, k, to) == {p \o <<to>> : p \in Paths(S \ {to}, k - 1)}

\* Sequences of nodes, without a node next to itself.
RECURSIVE Walks(_)
Walks(k) ==
    IF k = 1 THEN {<<x>> : x \in Nodes}
    ELSE UNION {{<<x>> \o w : x \in Nodes \ {w[1]}} : w \in Walks(k - 1)}

\* Random ones, since there are too many.
RECURSIVE Wander(_, _)
Wander(x, k) ==
    IF k = 0 THEN <<>>
    ELSE LET y == RandomElement(Nodes \ {x}) IN <<y>> \o Wander(y, k - 1)

SegSet(w) ==
    IF Len(w) < 2 THEN {<<w>>}
    ELSE {<<w>>} \cup {<<SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w))>> :
                            i \in 1..(Len(w) - 1)}

\* What fits into an onion for sure.
Cost(r) == 95 * Len(r.hops) + 35 * Len(r.segs)
Fits(path, dest, rp) ==
    ~Gen \/ 95 * Len(path) + (IF dest = <<>> THEN 0 ELSE Cost(RouteOf(dest[1])))
            + (IF rp = 0 THEN 0 ELSE 70 + Cost(RouteOf(rp))) <= 960

Pl(ts, k) == [i \in 1..Len(ts) |-> [t |-> ts[i], v |-> 100 * k + ts[i]]]
RECURSIVE Sorted(_)
Sorted(S) ==
    IF S = {} THEN <<>>
    ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
         IN  <<x>> \o Sorted(S \ {x})

Arrived(i) == i \in DOMAIN n.b
Dests == {<<>>} \cup {<<r.id>> : r \in routes}

Setup == n.r = 0 /\ n.s = 0

Env ==
    /\ ~over /\ Room
    /\ \/ \E x \in Nodes, t \in Types :
            /\ Setup /\ Len(todo) < MaxSubs
            /\ Gen => t = RandomElement(Types) /\ x = RandomElement(Nodes)
            /\ Subscribe(x, Len(todo) + 1, t)
            /\ Note([a |-> "sub", n |-> x, c |-> Len(todo) + 1, t |-> t])
            /\ UNCHANGED n
       \/ /\ n.r < MaxRoutes
          /\ \E x \in Pick(Nodes) : \E y \in Pick(Nodes \ {x}) :
                /\ Generate(n.r + 1, x, y, <<y, x>>,
                            {3 * n.r, 3 * n.r + 1, 3 * n.r + 2}, FALSE,
                            n.r + 1)
                /\ Note([a |-> "gen", id |-> n.r + 1, n |-> x, intro |-> y])
          /\ n' = [n EXCEPT !.r = @ + 1]
       \/ /\ n.r < MaxRoutes /\ Foreign
          /\ LET ws == IF Gen
                       THEN LET x == RandomElement(Nodes)
                                k == RandomElement(0..(MaxHops - 1))
                            IN  {<<x>> \o Wander(x, k)}
                       ELSE UNION {Walks(k) : k \in 1..MaxHops}
             IN  \E w \in ws : \E s \in Pick(SegSet(w)) :
                /\ Learn(n.r + 1, s, n.r + 1)
                /\ Note([a |-> "route", id |-> n.r + 1, segs |-> s])
          /\ n' = [n EXCEPT !.r = @ + 1]
       \/ /\ n.s < MaxSends
          /\ \E x \in Pick(Nodes) : \E dest \in Pick(Dests) :
             \E to \in Pick(IF dest = <<>> THEN Nodes
                            ELSE {RouteOf(dest[1]).first}) :
                \* Who sends to itself needs a way back.
                /\ x = to => MaxPath > 1
                /\ \E p \in Pick({q \in PathsTo(Nodes \ {x}, MaxPath, to) :
                                    x = to => Len(q) > 1}),
                      ts \in Pick(SUBSET Types),
                      rp \in Pick({0} \cup {r.id : r \in routes}) :
                    /\ Fits(p, dest, rp)
                    /\ Send(n.s + 1, x, p, dest,
                            [pl |-> Pl(Sorted(ts), n.s + 1), rp |-> rp])
                    /\ Note([a |-> "send", k |-> n.s + 1, n |-> x,
                             path |-> p, dest |-> dest, ts |-> Sorted(ts),
                             rp |-> rp])
          /\ n' = [n EXCEPT !.s = @ + 1]
       \/ \E i \in 1..Len(flight) :
            /\ (IF Arrived(i) THEN n.b[i] < MaxArrivals ELSE TRUE)
            /\ (Gen /\ Arrived(i)) => RandomElement(1..8) = 1
            /\ Arrive(i)
            /\ n' = [n EXCEPT !.b =
                        [j \in DOMAIN @ \cup {i} |->
                            IF j = i /\ j \in DOMAIN @ THEN @[j] + 1
                            ELSE IF j = i THEN 1 ELSE @[j]]]
            /\ Note([a |-> "arrive", k |-> flight[i].msg.on[1],
                     h |-> flight[i].msg.on[2]])
    /\ UNCHANGED <<over, got>>

Fault(on) ==
    /\ n.f < MaxFaults /\ n' = [n EXCEPT !.f = @ + 1]
    /\ Gen => RandomElement(1..6) = 1
    /\ Note([a |-> "fault", k |-> on[1], h |-> on[2]])

SystemStep ==
    /\ ~over
    /\ \/ \E s \in sends :
            \/ Emit(s.k, TRUE, 100 + s.k) /\ s.ed = <<>> /\ UNCHANGED <<n, sched>>
            \/ s.ed # <<>> /\ Emit(s.k, TRUE, s.ed[1]) /\ UNCHANGED <<n, sched>>
            \/ Emit(s.k, FALSE, 0) /\ s.ed = <<>> /\ Fault(s.msg.on)
            \/ s.ed # <<>> /\ Emit(s.k, FALSE, s.ed[1]) /\ Fault(s.msg.on)
            \/ \E ok \in BOOLEAN : Return(s.k, ok) /\ UNCHANGED <<n, sched>>
       \/ \E x \in Nodes :
            \/ Forward(x, TRUE) /\ UNCHANGED <<n, sched>>
            \/ Forward(x, FALSE) /\ Fault(Head(out[x]).msg.on)
    /\ UNCHANGED <<over, got>>

HandStep ==
    /\ ~over
    /\ \E c \in 1..Len(todo) :
        /\ Hand(c)
        /\ got' = Append(got, [c |-> c, v |-> Head(todo[c]).v,
                               rp |-> Head(todo[c]).rp])
    /\ UNCHANGED <<n, sched, over>>

Finish ==
    /\ Gen /\ ~over /\ Len(sched) >= MaxLen /\ Quiet
    /\ over' = TRUE
    /\ PrintT(<<"SCHED", ToJson([s |-> sched])>>)
    /\ UNCHANGED <<vars, n, sched, got>>

MCNext == Env \/ SystemStep \/ HandStep \/ Finish

---------------------------------------------------------------------------
(* Where a send is meant to go to, from what was asked for. *)
VARIABLE meant \* k -> [to, content, rp]
MeantInit == meant = <<>>
MeantNext ==
    meant' = IF n'.s = n.s THEN meant
             ELSE LET s == CHOOSE x \in sends' : x.k = n'.s
                      last == s.msg.layers[Len(s.msg.layers)].key.n
                  IN  Append(meant, [to |-> last, c |-> s.msg.content])

HInit == MCInit /\ MeantInit
HNext == MCNext /\ MeantNext

SubOf(c) == CHOOSE s \in subs : s.c = c
HandedTo(v) == {i \in 1..Len(got) : got[i].v = v}

\* C01: what is handed over was sent to this node, once, with its reply path.
Exact ==
    \A i \in 1..Len(got) :
        LET g == got[i]
            k == g.v \div 100
            s == SubOf(g.c)
        IN  /\ meant[k].to = s.n
            /\ [t |-> s.t, v |-> g.v] \in
                {meant[k].c.pl[j] : j \in 1..Len(meant[k].c.pl)}
            /\ meant[k].c.rp = g.rp
            /\ HandedTo(g.v) = {i}

\* C01, C15: nothing is lost on the way.
Complete ==
    (/\ Quiet /\ n.f = 0
     /\ \A i \in 1..Len(flight) : Arrived(i)) =>
        \A k \in 1..Len(meant) :
            \A j \in 1..Len(meant[k].c.pl) :
                \A s \in subs :
                    (s.n = meant[k].to /\ s.t = meant[k].c.pl[j].t) =>
                        \E i \in 1..Len(got) :
                            got[i].c = s.c /\ got[i].v = meant[k].c.pl[j].v

\* A message is only ever given to the node that can do something with it, all
\* the way to where it is meant to go.
OnTheWay ==
    \A i \in 1..Len(flight) :
        LET f == flight[i]
            v == Visits(f.to, f.msg)
        IN  /\ \A j \in 1..Len(v) : v[j] \in Nodes
            /\ Len(v) = Len(f.msg.layers)
            /\ v[Len(v)] = meant[f.msg.on[1]].to

\* C15: all that a generated route has in the clear is where it begins.
Hidden ==
    \A r \in routes :
        (Len(r.segs) = 1 /\ ~Foreign) =>
            LET us == r.segs[1][Len(r.segs[1])]
            IN  r.first # us

\* Only the node that a layer was made for can remove it.
OnlyThere ==
    \A i \in 1..Len(flight) : \A x \in Nodes :
        CanPeel(x, flight[i].msg) => x = flight[i].to
=============================================================================
