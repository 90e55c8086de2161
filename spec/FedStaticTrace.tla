--------------------------- MODULE FedStaticTrace ---------------------------
(* Verdicts of the real resolver on schemas, checked against FedStatic. *)
EXTENDS FedStatic, Json, IOUtils
VARIABLE i
Trees == ndJsonDeserialize(IOEnv.TREES)
Cases == ndJsonDeserialize(IOEnv.TRACE)
Want(c) == WellFormed([c |-> [k |-> c.k, i |-> c.i, x |-> c.x]] @@ Trees[c.tree])
Chunk == 1 + Len(Cases) \div 64
Init == i \in {1 + Chunk * j : j \in 0 .. 63}
Next == /\ i <= Len(Cases)
        /\ IF Cases[i].accepted = Want(Cases[i]) THEN TRUE ELSE PrintT(ToJson([bad |-> i]))
        /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
