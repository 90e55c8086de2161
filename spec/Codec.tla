-------------------------------- MODULE Codec --------------------------------
(* Handing an object graph to a code-generation plugin.

   The resolver's result is a graph: a node has a kind, a label (its plain
   values) and references to other nodes; 0 is "none".  Nodes of the kinds in
   Entities are things in their own right: they may be referred to from many
   places and it matters whether two references mean the same one.  All other
   nodes are values.  The message for the plugin has a table of the entities
   by id, in which references to entities are ids; values are written in
   place.  The graph the plugin sees must be the same graph.                *)
EXTENDS Naturals, Sequences, FiniteSets

Entities == {"File", "Service", "Method", "Message", "Enum", "EnumValue", "Field", "Oneof",
             "VariableDefinition", "CELPlugin", "MessageDependencyGraph", "MessageDependencyGraphNode",
             "SequentialVariableDefinitionGroup", "ConcurrentVariableDefinitionGroup"}

\* R, a set of pairs of nodes of the graphs g and h, relates the same things
LocallySame(g, h, R, p) ==
    LET a == g[p[1]] b == h[p[2]] IN
    /\ a.k = b.k /\ a.l = b.l /\ Len(a.r) = Len(b.r)
    /\ \A i \in DOMAIN a.r : (a.r[i] = 0 /\ b.r[i] = 0) \/ <<a.r[i], b.r[i]>> \in R

EntityPairs(g, R) == {p \in R : g[p[1]].k \in Entities}

OneToOne(R) == /\ Cardinality({p[1] : p \in R}) = Cardinality(R)
               /\ Cardinality({p[2] : p \in R}) = Cardinality(R)

Same(g, h, R) == /\ <<1, 1>> \in R
                 /\ \A p \in R : LocallySame(g, h, R, p)
                 /\ OneToOne(EntityPairs(g, R))

\* the pairs which positions reached in the same way from the roots make
RECURSIVE Reach(_, _, _)
Reach(g, h, R) ==
    LET S == R \cup {q \in (DOMAIN g) \X (DOMAIN h) :
                     \E p \in R : \E i \in DOMAIN g[p[1]].r :
                        i \in DOMAIN h[p[2]].r /\ q = <<g[p[1]].r[i], h[p[2]].r[i]>>}
    IN IF S = R THEN R ELSE Reach(g, h, S)

Isomorphic(g, h) == Same(g, h, Reach(g, h, {<<1, 1>>}))

-------------------------------------------------------------------------------
(* The table: the first entity of an id (in visiting order) provides its row,
   later ones of the same id are taken for it.  visit is the order.         *)
RowOwner(g, id, x) == CHOOSE n \in {m \in DOMAIN g : g[m].k \in Entities /\ id[m] = x} :
                        \A m \in DOMAIN g : (g[m].k \in Entities /\ id[m] = x) => n <= m

\* decoding the table gives one node for each id, numbered as its first owner
Decoded(g, id) ==
    LET rep(n) == IF n = 0 THEN 0 ELSE IF g[n].k \in Entities THEN RowOwner(g, id, id[n]) ELSE n
    IN [n \in DOMAIN g |-> [g[n] EXCEPT !.r = [i \in DOMAIN g[n].r |-> rep(g[n].r[i])]]]
=============================================================================
