------------------------------ MODULE MsgGraph ------------------------------
(* Which schemas have a cyclic message dependency.  A schema is a set of
   messages 1..n and a sequence of edges <<from, to, place>>: message from has
   a `message` definition of message to at that place.  What the place is does
   not matter: every place counts.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Succ(c, S) == S \cup {c.edges[x][2] : x \in {y \in DOMAIN c.edges : c.edges[y][1] \in S}}
Direct(c, i) == {c.edges[x][2] : x \in {y \in DOMAIN c.edges : c.edges[y][1] = i}}
RECURSIVE Reach(_, _)
Reach(c, S) == LET T == Succ(c, S) IN IF T = S THEN S ELSE Reach(c, T)
(* i depends on itself through one or more definitions *)
OnCycle(c, i) == i \in Reach(c, Direct(c, i))
Cyclic(c) == \E i \in 1 .. c.n : OnCycle(c, i)

Verdict(c) == IF Cyclic(c) THEN "cyclic" ELSE "accepted"
=============================================================================
