----------------------------- MODULE GenHistMC -----------------------------
(* The whole state space of GenHist.tla in watch mode, with its invariants. missed: the files changed without an event.     *)
EXTENDS GenHist
VARIABLES s, missed
Start == [disk |-> [f \in FileSet |-> IF f = "c" THEN None ELSE "v1"], cache |-> [f \in FileSet |-> IF f = "c" THEN None ELSE "v1"],
          written |-> [f \in FileSet |-> IF f = "c" THEN None ELSE "v1"]]
Init == s = Start /\ missed = {}
OpSet == {[op |-> p, f |-> f, v |-> v, also |-> al, told |-> TRUE] : p \in Ops, f \in FileSet, v \in Good \cup {"empty", None}, al \in {{}, {"a"}, {"b"}}}
Next == \E o \in OpSet : /\ Enabled(s, o)
                         /\ o.f \notin o.also
                         /\ s' = Step(s, o, TRUE)
                         /\ LET h == Told(Changed(s, o), o, TRUE)
                            IN missed' = IF h THEN {g \in o.also : s.disk[g] # None} ELSE IF o.op = "noise" THEN missed ELSE missed \ {o.f}
Spec == Init /\ [][Next]_<<s, missed>>
TypeOK == s \in State
WrittenIsKnown == Consistent(s)
KnownIsFresh == Fresh(s, missed)
(* every event has one result per known file *)
OneEach == \A f \in FileSet : \A r \in Results(s, f) : \A g \in Known(s) \cup {f} : Cardinality({x \in r : x.f = g}) = 1
=============================================================================
