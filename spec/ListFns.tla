------------------------------ MODULE ListFns ------------------------------
(* The mathematical meaning of the CEL list functions of grpc-federation
   (grpc/federation/cel/list.go).  An element is a pair <<k, t>>: the key the
   expressions look at and a tag which tells elements with equal keys apart.
   A value is a record with a field ty:
     [ty |-> "list", l |-> sequence of elements]
     [ty |-> "nest", n |-> sequence of sequences of elements]
     [ty |-> "nest3", m |-> sequence of nests]
     [ty |-> "int", i |-> integer]
     [ty |-> "some", l |-> <<element>>]  [ty |-> "none"]  [ty |-> "err"]        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

List(s) == [ty |-> "list", l |-> s]
Err == [ty |-> "err"]
None == [ty |-> "none"]
Some(e) == [ty |-> "some", l |-> <<e>>]
Int_(i) == [ty |-> "int", i |-> i]

(* Key functions.  "inv" is 6/k, which cannot be evaluated for k = 0. *)
Key(f, w, e) ==
  CASE f = "k" -> e[1]
    [] f = "neg" -> 0 - e[1]
    [] f = "mod" -> e[1] % 2
    [] f = "t" -> e[2]
    [] f = "const" -> 0
    [] f = "mulw" -> e[1] * w
    [] f = "gtw" -> IF e[1] > w THEN 1 ELSE 0
    [] f = "inv" -> 6 \div e[1]
KeyOK(f, e) == f # "inv" \/ e[1] # 0

Sorts == {"sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc"}
Asc(op) == op \in {"sortAsc", "sortStableAsc"}
Stable(op) == op \in {"sortStableAsc", "sortStableDesc"}

Before(op, a, b) == IF Asc(op) THEN a < b ELSE a > b

(* The place of every element: those with a smaller key and the earlier ones
   with the same key come first. *)
StableSort(op, f, w, s) ==
  LET key == [i \in DOMAIN s |-> Key(f, w, s[i])]
      rank == [i \in DOMAIN s |-> 1 + Cardinality({j \in DOMAIN s :
                 Before(op, key[j], key[i]) \/ (key[j] = key[i] /\ j < i)})]
      at == [r \in DOMAIN s |-> CHOOSE i \in DOMAIN s : rank[i] = r]
  IN [r \in DOMAIN s |-> s[at[r]]]

Sorted(op, f, w, s) ==
  \A i \in 1 .. Len(s) - 1 : ~Before(op, Key(f, w, s[i+1]), Key(f, w, s[i]))

Count(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})
IsPerm(s, r) == Len(s) = Len(r) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(r, s[i])

RECURSIVE Fold(_, _, _, _, _)
Step(f, acc, e) ==
  CASE f = "sum" -> acc + e[1]
    [] f = "horner" -> 3 * acc + e[1]
    [] f = "last" -> e[1]
    [] f = "cnt" -> acc + 1
    [] f = "min" -> IF acc < e[1] THEN acc ELSE e[1]
    [] f = "sub" -> e[1] - acc
Fold(f, s, i, acc, n) == IF i > n THEN acc ELSE Fold(f, s, i + 1, Step(f, acc, s[i]), n)

Pred(f, w, e) ==
  CASE f = "eq" -> e[1] = w
    [] f = "gt" -> e[1] > w
    [] f = "lt" -> e[1] < w
    [] f = "true" -> TRUE
    [] f = "false" -> FALSE
    [] f = "tag" -> e[2] % 2 = 1

First(f, w, s) ==
  LET hits == {i \in DOMAIN s : Pred(f, w, s[i])}
  IN IF hits = {} THEN None
     ELSE Some(s[CHOOSE i \in hits : \A j \in hits : i <= j])

RECURSIVE Flat(_)
Flat(n) == IF n = <<>> THEN <<>> ELSE Head(n) \o Flat(Tail(n))

Filter(f, w, s) == SelectSeq(s, LAMBDA e : Pred(f, w, e))

(* The results an operation o = [op, f, w] may have on a value. *)
Deterministic(v, o) ==
  CASE v.ty = "err" -> Err
    [] o.op \in Sorts ->
         IF \E i \in DOMAIN v.l : ~KeyOK(o.f, v.l[i]) THEN Err
         ELSE List(StableSort(o.op, o.f, o.w, v.l))
    [] o.op = "filter" -> List(Filter(o.f, o.w, v.l))
    [] o.op = "first" -> First(o.f, o.w, v.l)
    [] o.op = "reduce" -> Int_(Fold(o.f, v.l, 1, o.w, Len(v.l)))
    [] o.op = "collect" -> List(v.l)           \* reduce(a, v, a + [v], [])
    [] o.op = "reverse" -> List([i \in DOMAIN v.l |-> v.l[Len(v.l) + 1 - i]])  \* reduce(a, v, [v] + a, [])
    [] o.op = "flatten" ->
         IF v.ty = "nest" THEN List(Flat(v.n)) ELSE [ty |-> "nest", n |-> Flat(v.m)]
    [] o.op = "mapsort" ->                     \* map(x, x.sortStableAsc(v, key))
         IF \E i \in DOMAIN v.n : \E j \in DOMAIN v.n[i] : ~KeyOK(o.f, v.n[i][j]) THEN Err
         ELSE [ty |-> "nest", n |-> [i \in DOMAIN v.n |-> StableSort("sortStableAsc", o.f, o.w, v.n[i])]]

Allowed(v, o, r) ==
  IF v.ty # "err" /\ o.op \in Sorts /\ ~Stable(o.op)
  THEN IF \E i \in DOMAIN v.l : ~KeyOK(o.f, v.l[i]) THEN r = Err
       ELSE r.ty = "list" /\ IsPerm(v.l, r.l) /\ Sorted(o.op, o.f, o.w, r.l)
  ELSE r = Deterministic(v, o)

Perms(s) == {p \in [DOMAIN s -> DOMAIN s] : \A i, j \in DOMAIN s : i # j => p[i] # p[j]}
SortResults(v, o) ==
  {List([i \in DOMAIN v.l |-> v.l[p[i]]]) : p \in
     {q \in Perms(v.l) : Sorted(o.op, o.f, o.w, [i \in DOMAIN v.l |-> v.l[q[i]]])}}

(* A chain of operations: unstable sorts before the last one branch. *)
RECURSIVE Chain(_, _, _)
Chain(v, ops, r) ==
  IF ops = <<>> THEN r = v
  ELSE IF Len(ops) = 1 THEN Allowed(v, ops[1], r)
  ELSE IF v.ty # "err" /\ ops[1].op \in Sorts /\ ~Stable(ops[1].op)
            /\ ~\E i \in DOMAIN v.l : ~KeyOK(ops[1].f, v.l[i])
  THEN \E u \in SortResults(v, ops[1]) : Chain(u, Tail(ops), r)
  ELSE Chain(Deterministic(v, ops[1]), Tail(ops), r)
=============================================================================
