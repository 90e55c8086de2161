---------------------------- MODULE MsgGraphGen ----------------------------
(* The enumerated schemas: one edge and two edges at every (pair of) place(s)
   on two messages, and every directed graph on MaxN messages with the places
   left open ("?", chosen by the harness).  The definition of a cycle is
   checked against a second one: no topological order exists.                *)
EXTENDS MsgGraph, Json
CONSTANTS MaxN, Places, PairPlaces
VARIABLE c

Pairs(n) == (1 .. n) \X (1 .. n)
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o ToSeq(S \ {x})

Init ==
  \/ \E p \in Pairs(2), a \in Places : c = [n |-> 2, edges |-> <<<<p[1], p[2], a>>>>]
  \/ \E p, q \in Pairs(2), a, b \in PairPlaces :
        /\ p # q /\ (p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
        /\ c = [n |-> 2, edges |-> <<<<p[1], p[2], a>>, <<q[1], q[2], b>>>>]
  \/ \E G \in SUBSET Pairs(MaxN) :
        LET s == ToSeq(G) IN c = [n |-> MaxN, edges |-> [i \in DOMAIN s |-> <<s[i][1], s[i][2], "?">>]]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

Orders(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}
HasOrder == \E f \in Orders(c.n) : \A x \in DOMAIN c.edges : f[c.edges[x][1]] < f[c.edges[x][2]]
Inv == (Cyclic(c) <=> ~HasOrder) /\ PrintT(ToJson(c))
=============================================================================
