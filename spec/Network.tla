------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* Several nodes that run this software, and the onion messages between    *)
(* them: routes that nodes generate to themselves, sends to clear and      *)
(* blinded destinations, relays, and delivery (C01, C15).                  *)
(*                                                                         *)
(* Cryptography is symbolic. A point is the i-th of the chain that starts  *)
(* at a source's ephemeral key; only the node that a key was blinded for,  *)
(* given the right point, can remove the layer of an onion that was made   *)
(* for that key, or read the data that was encrypted for it.               *)
(*                                                                         *)
(* A blinded route is made of segments, each blinded with a key of its own *)
(* and joined by an override of the blinding point; this is how a sender   *)
(* puts its own hops in front of the route of a recipient, too.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Nodes

VARIABLES
    routes,  \* blinded routes known: [id, segs, first, point, hops, ed]
    used,    \* what generated routes consist of: points, keys, blobs
    subs,    \* [n, c, t]: subscription c at node n for type t
    sends,   \* [k, n, msg, st]: st is "new", "ok" or "err"
    flight,  \* messages that went out, in that order: [to, msg]
    out,     \* per node: what it is about to forward, [to, msg]
    seen,    \* per node: the onions that it has processed
    todo     \* per subscription: what is to be handed over, [v, rp, ed]

vars == <<routes, used, subs, sends, flight, out, seen, todo>>

Init ==
    /\ routes = {} /\ used = {} /\ subs = {} /\ sends = {} /\ flight = <<>>
    /\ out = [n \in Nodes |-> <<>>] /\ seen = [n \in Nodes |-> {}]
    /\ todo = <<>>

---------------------------------------------------------------------------
(* Symbolic route blinding *)

Point(src, i) == <<src, i>>
Next(p) == Point(p[1], p[2] + 1)
Key(n, p) == [n |-> n, p |-> p]
\* Data for the holder of a key: where to go on, and with which point.
Enc(k, to, over) == [k |-> k, to |-> to, over |-> over]

\* The hops for nodes ns blinded with source src; the last one goes on to
\* (to, over).
Segment(src, ns, to, over) ==
    [i \in 1..Len(ns) |->
        LET k == Key(ns[i], Point(src, i - 1))
        IN  [key |-> k,
             enc |-> IF i < Len(ns) THEN Enc(k, <<ns[i + 1]>>, <<>>)
                     ELSE Enc(k, to, over)]]

RECURSIVE Joined(_, _, _)
Joined(id, segs, j) ==
    IF j > Len(segs) THEN <<>>
    ELSE Segment(<<"route", id, j>>, segs[j],
                 IF j < Len(segs) THEN <<segs[j + 1][1]>> ELSE <<>>,
                 IF j < Len(segs) THEN <<Point(<<"route", id, j + 1>>, 0)>>
                                  ELSE <<>>)
         \o Joined(id, segs, j + 1)

Route(id, segs, ed) ==
    [id |-> id, segs |-> segs, first |-> segs[1][1],
     point |-> Point(<<"route", id, 1>>, 0), hops |-> Joined(id, segs, 1),
     ed |-> ed]

RouteOf(id) == CHOOSE r \in routes : r.id = id
Known(id) == \E r \in routes : r.id = id

\* A message: identity of the onion, blinding point, layers; the innermost
\* one has the content.
Message(on, p, layers, content) ==
    [on |-> on, p |-> p, layers |-> layers, content |-> content]

\* What goes out for a send along path to its last node or, if there is a
\* blinded destination, on from there.
Build(k, path, dest, content) ==
    LET src == <<"send", k>>
        on == <<k, 0>>
        r == RouteOf(dest[1])
        pre == SubSeq(path, 1, Len(path) - 1)
    IN  IF dest = <<>>
        THEN Message(on, Point(src, 0), Segment(src, path, <<>>, <<>>),
                     content)
        ELSE IF pre = <<>> THEN Message(on, r.point, r.hops, content)
        ELSE Message(on, Point(src, 0),
                     Segment(src, pre, <<r.first>>, <<r.point>>) \o r.hops,
                     content)

CanPeel(n, m) == m.layers # <<>> /\ m.layers[1].key = Key(n, m.p)
CanRead(n, m) == m.layers[1].enc.k = Key(n, m.p)
Final(m) == Len(m.layers) = 1

Peeled(m) ==
    LET e == m.layers[1].enc
    IN  Message(<<m.on[1], m.on[2] + 1>>,
                IF e.over # <<>> THEN e.over[1] ELSE Next(m.p),
                Tail(m.layers), m.content)

\* The nodes that a message visits, starting with the one that it is given to.
RECURSIVE Visits(_, _)
Visits(n, m) ==
    IF ~CanPeel(n, m) THEN <<0>>
    ELSE IF Final(m) THEN <<n>>
    ELSE IF ~CanRead(n, m) \/ m.layers[1].enc.to = <<>> THEN <<n, 0>>
    ELSE <<n>> \o Visits(m.layers[1].enc.to[1], Peeled(m))

---------------------------------------------------------------------------
(* Generated routes, and routes from elsewhere *)

\* C15. node's route begins at the peer that it had to choose, ends at the
\* node, and consists of nothing that any other route consists of.
Generate(id, n, intro, path, parts, clear, ed) ==
    /\ ~Known(id)
    /\ Len(path) > 1 /\ path[1] = intro /\ path[Len(path)] = n
    /\ \A i \in 1..Len(path) : path[i] \in Nodes
    /\ ~clear
    /\ parts \cap used = {} /\ used' = used \cup parts
    /\ routes' = routes \cup {Route(id, <<path>>, ed)}
    /\ UNCHANGED <<subs, sends, flight, out, seen, todo>>

Learn(id, segs, ed) ==
    /\ ~Known(id)
    /\ routes' = routes \cup {Route(id, segs, ed)}
    /\ UNCHANGED <<used, subs, sends, flight, out, seen, todo>>

Subscribe(n, c, t) ==
    /\ c = Len(todo) + 1
    /\ \A s \in subs : <<s.n, s.t>> # <<n, t>>
    /\ subs' = subs \cup {[n |-> n, c |-> c, t |-> t]}
    /\ todo' = Append(todo, <<>>)
    /\ UNCHANGED <<routes, used, sends, flight, out, seen>>

---------------------------------------------------------------------------
(* Sends *)

\* content: [pl, rp], pl a sequence of [t, v] by ascending type. path ends at
\* the destination or where the blinded destination begins.
Send(k, n, path, dest, content) ==
    /\ \A s \in sends : s.k # k
    /\ dest # <<>> => Known(dest[1]) /\ path[Len(path)] = RouteOf(dest[1]).first
    /\ sends' = sends \cup {[k |-> k, n |-> n, st |-> "new", to |-> path[1],
                             ed |-> IF dest = <<>> THEN <<>>
                                    ELSE <<RouteOf(dest[1]).ed>>,
                             msg |-> Build(k, path, dest, content)]}
    /\ UNCHANGED <<routes, used, subs, flight, out, seen, todo>>

\* The message of a send goes out; lnd takes it or not. ed: the encrypted data
\* that its recipient gets.
Emit(k, ok, ed) ==
    \E s \in sends :
        /\ s.k = k /\ s.st = "new"
        /\ s.ed # <<>> => s.ed[1] = ed
        /\ sends' = (sends \ {s}) \cup
                    {[s EXCEPT !.st = IF ok THEN "ok" ELSE "err"]}
        /\ flight' = Append(flight, [to |-> s.to, ok |-> ok,
                                     msg |-> s.msg, ed |-> ed])
        /\ UNCHANGED <<routes, used, subs, out, seen, todo>>

Return(k, ok) ==
    \E s \in sends :
        /\ s.k = k /\ s.st = (IF ok THEN "ok" ELSE "err")
        /\ sends' = (sends \ {s}) \cup {[s EXCEPT !.st = "done"]}
        /\ UNCHANGED <<routes, used, subs, flight, out, seen, todo>>

---------------------------------------------------------------------------
(* Relay and delivery *)

\* What is handed to subscription c for the content of a message.
Payloads(n, c, f) ==
    LET t == (CHOOSE s \in subs : s.c = c).t
        S == SelectSeq(f.msg.content.pl, LAMBDA p : p.t = t)
    IN  IF \E s \in subs : s.c = c /\ s.n = n
        THEN [i \in 1..Len(S) |-> [v |-> S[i].v, rp |-> f.msg.content.rp]]
        ELSE <<>>

\* Message i of all that went out reaches its node (perhaps once more).
Arrive(i) ==
    LET f == flight[i]
        n == f.to
        m == f.msg
    IN  /\ f.ok
        /\ seen' = [seen EXCEPT ![n] = @ \cup {m.on}]
        /\ IF m.on \in seen[n] \/ ~CanPeel(n, m)
           THEN UNCHANGED <<out, todo>>
           ELSE IF Final(m)
           THEN /\ todo' = [c \in 1..Len(todo) |->
                                todo[c] \o Payloads(n, c, f)]
                /\ UNCHANGED out
           ELSE /\ out' = IF CanRead(n, m) /\ m.layers[1].enc.to # <<>>
                          THEN [out EXCEPT ![n] =
                                    Append(@, [to |-> m.layers[1].enc.to[1],
                                               msg |-> Peeled(m),
                                               ed |-> f.ed])]
                          ELSE out
                /\ UNCHANGED todo
        /\ UNCHANGED <<routes, used, subs, sends, flight>>

Forward(n, ok) ==
    /\ out[n] # <<>>
    /\ out' = [out EXCEPT ![n] = Tail(@)]
    /\ LET f == Head(out[n])
       IN  flight' = Append(flight, [to |-> f.to, ok |-> ok, msg |-> f.msg,
                                     ed |-> f.ed])
    /\ UNCHANGED <<routes, used, subs, sends, seen, todo>>

Hand(c) ==
    /\ todo[c] # <<>>
    /\ todo' = [todo EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<routes, used, subs, sends, flight, out, seen>>

\* Nothing is left for the system to do.
Quiet ==
    /\ \A s \in sends : s.st = "done"
    /\ \A n \in Nodes : out[n] = <<>>
    /\ \A c \in 1..Len(todo) : todo[c] = <<>>
=============================================================================
