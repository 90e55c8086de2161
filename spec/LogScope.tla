------------------------------ MODULE LogScope ------------------------------
(* Log attributes of message scopes.                                                            *)
(* A program is a sequence of messages (the first is the response). A message is a sequence of   *)
(* steps: its definitions, its custom resolver, its fields. A step becomes ready when the steps    *)
(* it depends on are complete, and performs its actions one after the other:                      *)
(*   add k      the attribute k=<path of the scope> is added (log.add, or a resolver's SetLogger)  *)
(*   emit k x   a record k is logged (x: with an attribute of its own)                            *)
(*   each k n   n records, one per element                                                       *)
(*   enter m n  message m is resolved (n > 0: once per element of a list, one after the other)      *)
(*   fail k     the request fails; the failure is logged as record k                              *)
(* A scope starts with the attributes that its parent has at that moment. A record has exactly     *)
(* the attributes of its scope.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(f, x) == x \in DOMAIN f

RECURSIVE Flat(_, _, _, _), Rep(_, _, _, _, _)
(* the atomic actions of a step in a scope *)
Child(path, st, e) == path \o "." \o st.n \o (IF e < 0 THEN "" ELSE "#" \o ToString(e))
Rep(path, st, a, e, n) ==
  IF e >= n THEN <<>>
  ELSE (CASE a.a = "each" -> <<[a |-> "emit", id |-> a.k \o "@" \o path \o "#" \o ToString(e), x |-> FALSE]>>
          [] a.a = "enter" -> <<[a |-> "enter", to |-> Child(path, st, e), m |-> a.m], [a |-> "exit", to |-> Child(path, st, e)]>>)
       \o Rep(path, st, a, e + 1, n)
Flat(path, st, as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE LET a == as[i]
       IN (CASE a.a = "add" -> <<[a |-> "add", k |-> a.k \o "=" \o path]>>
             [] a.a = "emit" -> <<[a |-> "emit", id |-> a.k \o "@" \o path, x |-> a.x]>>
             [] a.a = "fail" -> <<[a |-> "fail", id |-> a.k \o "@" \o path, x |-> FALSE]>>
             [] a.a = "enter" /\ a.c < 0 -> <<[a |-> "enter", to |-> Child(path, st, -1), m |-> a.m], [a |-> "exit", to |-> Child(path, st, -1)]>>
             [] OTHER -> Rep(path, st, a, 0, a.c))
          \o Flat(path, st, as, i + 1)
Atoms(path, st) == Flat(path, st, st.acts, 1)

(* state of a request: at (scope -> attributes), ms (scope -> message), pc (scope, step -> actions done) *)
Steps(P, ms, p) == P[ms[p]]
Pc(pc, p, i) == IF Has(pc, <<p, i>>) THEN pc[<<p, i>>] ELSE 0
StepDone(P, ms, pc, p, i) == Pc(pc, p, i) = Len(Atoms(p, Steps(P, ms, p)[i]))
ScopeDone(P, ms, pc, p) == \A i \in 1..Len(Steps(P, ms, p)) : StepDone(P, ms, pc, p, i)
Ready(P, ms, pc, p, i) ==
  LET st == Steps(P, ms, p)[i]
  IN /\ ~StepDone(P, ms, pc, p, i)
     /\ IF st.c = "def" THEN \A j \in 1..Len(st.deps) : StepDone(P, ms, pc, p, st.deps[j])
        ELSE \A j \in 1..(i - 1) : StepDone(P, ms, pc, p, j)
Enabled(P, ms, pc) ==
  UNION {{<<p, i, Atoms(p, Steps(P, ms, p)[i])[Pc(pc, p, i) + 1]>> : i \in {j \in 1..Len(Steps(P, ms, p)) : Ready(P, ms, pc, p, j)}} : p \in DOMAIN ms}
=============================================================================
