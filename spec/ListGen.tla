------------------------------ MODULE ListGen ------------------------------
(* Enumerates the cases: every list up to MaxLen over the keys 0..MaxKey with
   every chain of operations, and checks the definitions themselves. *)
EXTENDS ListFns, Json
CONSTANTS MaxLen, MaxKey, Chains
VARIABLE c

Lists(n) == UNION {[1 .. k -> 0 .. MaxKey] : k \in 0 .. n}
Elems(s) == [i \in DOMAIN s |-> <<s[i], i>>]
Op(o, f, w) == [op |-> o, f |-> f, w |-> w]

SortOps == {Op(o, f, 0) : o \in Sorts, f \in {"k", "neg", "mod", "const", "t", "inv"}}
             \cup {Op(o, f, w) : o \in Sorts, f \in {"mulw", "gtw"}, w \in {0-1, 1}}
ReduceOps == {Op("reduce", f, w) : f \in {"sum", "horner", "last", "cnt", "min", "sub"}, w \in {0, 2}}
               \cup {Op("collect", "", 0), Op("reverse", "", 0)}
FirstOps == {Op("first", f, w) : f \in {"eq", "gt", "lt"}, w \in 0 .. MaxKey}
               \cup {Op("first", f, 0) : f \in {"true", "false", "tag"}}
FilterOps == {Op("filter", "gt", 0), Op("filter", "tag", 0)}
NestOps == {<<Op("flatten", "", 0)>>}
            \cup {<<Op("mapsort", f, 0), Op("flatten", "", 0)>> : f \in {"k", "neg"}}
            \cup {<<Op("flatten", "", 0), o>> : o \in {Op("sortStableDesc", "mod", 0), Op("reduce", "horner", 1), Op("first", "eq", 1), Op("reverse", "", 0)}}

One == {<<o>> : o \in SortOps \cup ReduceOps \cup FirstOps \cup FilterOps}
SomeSorts == {Op("sortAsc", "mod", 0), Op("sortDesc", "k", 0), Op("sortStableAsc", "k", 0), Op("sortStableDesc", "mod", 0), Op("sortStableAsc", "gtw", 1)}
Two == {<<a, b>> : a \in SomeSorts \cup FilterOps \cup {Op("reverse", "", 0)},
                   b \in SomeSorts \cup {Op("first", "true", 0), Op("first", "tag", 0), Op("reduce", "horner", 0), Op("reverse", "", 0), Op("filter", "tag", 0)}}

Nests == UNION {[1 .. k -> Lists(2)] : k \in 0 .. 2} \cup [1 .. 3 -> Lists(1)]
TagNest(n) == [i \in DOMAIN n |-> [j \in DOMAIN n[i] |-> <<n[i][j], 4 * i + j>>]]
Nest3 == UNION {[1 .. k -> UNION {[1 .. j -> {<<>>, <<0>>, <<1, 0>>}] : j \in 0 .. 2}] : k \in 0 .. 2}
TagNest3(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> [h \in DOMAIN m[i][j] |-> <<m[i][j][h], 8 * i + 4 * j + h>>]]]

Init ==
  \/ \E s \in Lists(MaxLen), o \in One : c = [src |-> List(Elems(s)), ops |-> o]
  \/ Chains /\ \E s \in Lists(MaxLen), o \in Two : c = [src |-> List(Elems(s)), ops |-> o]
  \/ \E n \in Nests, o \in NestOps : c = [src |-> [ty |-> "nest", n |-> TagNest(n)], ops |-> o]
  \/ \E m \in Nest3, o \in {<<Op("flatten", "", 0)>>, <<Op("flatten", "", 0), Op("flatten", "", 0)>>} :
        c = [src |-> [ty |-> "nest3", m |-> TagNest3(m)], ops |-> o]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

(* The definitions agree: the stable sort is one of the sorts; descending is
   ascending by the negated key; sorting is idempotent. *)
SortsAgree ==
  (Len(c.ops) = 1 /\ c.ops[1].op \in Sorts /\ \A i \in DOMAIN c.src.l : KeyOK(c.ops[1].f, c.src.l[i])) =>
    LET o == c.ops[1]
        d == StableSort(o.op, o.f, o.w, c.src.l)
    IN /\ IsPerm(c.src.l, d)
       /\ Sorted(o.op, o.f, o.w, d)
       /\ StableSort(o.op, o.f, o.w, d) = d
       /\ List(d) \in SortResults(c.src, o)
       /\ (o.f = "k" => StableSort("sortStableDesc", "k", 0, c.src.l) = StableSort("sortStableAsc", "neg", 0, c.src.l))
Emit == PrintT(ToJson(c))
Inv == SortsAgree /\ Emit
=============================================================================
