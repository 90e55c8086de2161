---------------------------- MODULE GenHistTrace ----------------------------
(* Recorded histories: every step must be one of GenHist.tla. A record is [watch, h]; a step has the operation, the results *)
(* (or called = FALSE) and what is written after it.                                                                        *)
EXTENDS GenHist, TLC, IOUtils, Json
VARIABLES r, i, s
Runs == ndJsonDeserialize(IOEnv.GH_TRACE)
Start == [f \in FileSet |-> IF f = "c" THEN None ELSE "v1"]
Init == r \in 1..Len(Runs) /\ i = 1 /\ s = [disk |-> Start, cache |-> Start, written |-> Start]
SetOf(q) == {q[j] : j \in DOMAIN q}
Op(x) == [op |-> x.op, f |-> x.f, v |-> x.v, also |-> SetOf(x.also), told |-> x.told]
Res(x) == {[f |-> y.f, type |-> y.type, v |-> y.v] : y \in SetOf(x.results)}
Why(t, x, w) ==
  LET o == Op(x) n == Step(s, o, w)
  IN IF x.called # Told(t, o, w) THEN "called"
     ELSE IF x.called /\ Len(x.results) # Cardinality(Res(x)) THEN "repeated"
     ELSE IF x.called /\ Res(x) \notin Results(t, o.f) THEN "results"
     ELSE IF \E g \in FileSet : x.written[g] # n.written[g] THEN "written"
     ELSE "ok"
Next == /\ i <= Len(Runs[r].h)
        /\ LET x == Runs[r].h[i] IN
           IF Why(Changed(s, Op(x)), x, Runs[r].watch) # "ok" THEN FALSE
           ELSE s' = Step(s, Op(x), Runs[r].watch) /\ i' = i + 1 /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, i, s>>
Judge == i > Len(Runs[r].h) \/
         LET x == Runs[r].h[i] t == Changed(s, Op(x)) w == Why(t, x, Runs[r].watch) IN
         IF w = "ok" THEN TRUE ELSE PrintT(ToJson([run |-> r, step |-> i, why |-> w, state |-> t, expected |-> IF Told(t, Op(x), Runs[r].watch) THEN Results(t, x.f) ELSE {}, after |-> Step(s, Op(x), Runs[r].watch).written]))
=============================================================================
