---------------------------- MODULE TraceConfig ----------------------------
(* Validates daemons that real code created from options.                     *)
EXTENDS Config, TraceLib, Integers, FiniteSets

E == Ev[l]
TInit == made = <<>> /\ TraceInit

New ==
    /\ Is("new") /\ Create(E.opts)
    /\ LET r == made'[Len(made')]
       IN /\ E.ok = r.ok
          /\ r.ok => /\ E.n = r.n        \* options that were asked
                     /\ E.cfg = r.cfg    \* what it runs with
                     \* Its loggers go where the last word says: each once.
                     /\ LET S(q) == {q[i] : i \in 1..Len(q)}
                        IN /\ S(E.logs) =
                                IF r.cfg.log = "" THEN {}
                                ELSE {<<r.cfg.log, s>> : s \in S(E.subs)}
                           /\ Len(E.logs) = Cardinality(S(E.logs))
TNext == New
TypeOKT == Len(made) >= 0
=============================================================================
