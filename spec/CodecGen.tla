------------------------------ MODULE CodecGen ------------------------------
(* All graphs of N nodes with two labels and two names: the round trip keeps
   the graph if distinct entities have distinct ids, and does not keep it if
   two reachable entities share one.                                        *)
EXTENDS Codec
CONSTANTS N, Names
Node == [k : {"Message", "Type"}, l : {"a", "b"}, r : {<<>>} \cup {<<x>> : x \in 0 .. N} \cup {<<x, y>> : x, y \in 1 .. N}]
VARIABLES g, id
Init == /\ g \in [1 .. N -> Node] /\ g[1].k = "Message"
        /\ id \in [1 .. N -> Names]
Next == UNCHANGED <<g, id>>
Spec == Init /\ [][Next]_<<g, id>>

Self == Reach(g, g, {<<1, 1>>})
Reached == {p[1] : p \in Self} \ {0}
Ents == {n \in Reached : g[n].k \in Entities}
Unique == \A m, n \in Ents : m # n => id[m] # id[n]
\* the ids of unreached nodes do not matter: restrict the decoding to reached ones
Sub == [n \in DOMAIN g |-> IF n \in Reached THEN g[n] ELSE [k |-> "Type", l |-> "a", r |-> <<>>]]
Inv == Isomorphic(Sub, Decoded(Sub, id)) <=> Unique
=============================================================================
