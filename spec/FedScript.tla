------------------------------ MODULE FedScript ------------------------------
(* Behaviours of the specification, as scripts for the implementation: for each scenario (a      *)
(* program, a request, the answers of the backends and an order of completion) the sets of calls  *)
(* that must be in flight before each completion.                                                 *)
EXTENDS FedRT, Json, IOUtils, SequencesExt

Data == JsonDeserialize(IOEnv.FED_IN)
Scen == Data.scen
Progs == Data.progs

VARIABLES sc, done, steps, over
vars == <<sc, done, steps, over>>

Empty == [x \in {} |-> 0]
Rec(s) == [n \in {"$" \o x : x \in DOMAIN s} |-> s[CHOOSE x \in DOMAIN s : "$" \o x = n]]
P == Progs[Scen[sc].prog]
C == [p |-> P, done |-> done, fly |-> {}, eh |-> Scen[sc].eh]
R == EvalMsg(C, P.root, [n \in DOMAIN Rec(Scen[sc].args) |-> Rec(Scen[sc].args)[n]])

Mod(n, l) == n % l
Pick(outs, n, i) ==
  IF outs = <<>> THEN [o |-> "ok", c |-> 0, m |-> "", d |-> <<>>]
  ELSE LET a == outs[Mod(n, Len(outs)) + 1]
       IN IF a = <<>> THEN [o |-> "ok", c |-> 0, m |-> "", d |-> <<>>] ELSE a[IF i > Len(a) THEN Len(a) ELSE i]

(* the backends and custom resolvers of the test driver *)
Answer(it) ==
  LET site == it[3]
      s == Scen[sc].sites[site]
      q == it[5].f
  IN IF s.kind = "call"
     THEN LET o == Pick(s.outs, q.n, it[2])
              v == [t |-> "msg", f |-> [n |-> s.n + q.n, s |-> q.s \o s.s, b |-> s.b, ns |-> s.ns,
                                        items |-> s.items, item |-> s.item, e |-> 0]]
          IN [o |-> o.o, c |-> o.c, m |-> o.m, d |-> o.d, v |-> IF o.o = "ok" THEN v ELSE 0]
     ELSE LET o == Pick(s.outs, 0, it[2])
              v == CASE s.kind = "msg" -> [t |-> "msg", f |-> ("n" :> (q.n + 1000)) @@ ("s" :> (q.s \o "!")) @@ P.msgs[s.msg].fz]
                     [] s.kind = "int" -> q.n + 500
                     [] s.kind = "str" -> "c:" \o q.s
          IN [o |-> o.o, c |-> o.c, m |-> o.m, d |-> o.d, v |-> IF o.o = "ok" THEN v ELSE 0]

Key(it) == it[1] \o "@" \o ToString(it[2])

Init == /\ sc \in 1..Len(Scen)
        /\ done = Empty
        /\ steps = <<>>
        /\ over = FALSE

Finish(r) ==
  /\ PrintT("SCRIPT " \o ToJson([id |-> Scen[sc].id, steps |-> steps, st |-> IF \E e \in r.er : e.k = "dup" THEN "dup" ELSE r.st]))
  /\ over' = TRUE
  /\ UNCHANGED <<sc, done, steps>>

Hangs(o) == o \in {"hang", "hangx", "hangp"}

Complete(r) ==
  LET q == SetToSeq(r.fl)
      pk == Scen[sc].picks
      it == q[(pk[(Cardinality(DOMAIN done) % Len(pk)) + 1] % Len(q)) + 1]
      a == Answer(it)
  IN IF Hangs(a.o) /\ it[4] = 0 THEN Finish(r)
     ELSE /\ steps' = IF r.er # {} THEN steps
                      ELSE Append(steps, [expect |-> [j \in 1..Len(q) |-> Key(q[j])], release |-> Key(it)])
          /\ done' = (it[1] :> (Attempts(C, it[1]) \o <<IF Hangs(a.o) THEN [a EXCEPT !.o = "expired"] ELSE a>>)) @@ done
          /\ UNCHANGED <<sc, over>>

Next ==
  /\ ~over
  /\ LET r == R
     IN IF r.fl = {} \/ (\E e \in r.er : e.k = "dup") THEN Finish(r) ELSE Complete(r)

Spec == Init /\ [][Next]_vars
==============================================================================
