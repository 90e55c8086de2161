------------------------------ MODULE ListTrace ------------------------------
(* Results of the real functions, checked against ListFns. *)
EXTENDS ListFns, Json, IOUtils
VARIABLE i
Cases == ndJsonDeserialize(IOEnv.LIST_TRACE)
Ok(c) == Chain(c.src, c.ops, c.res) /\ c.after = c.src
Chunk == 1 + Len(Cases) \div 64
Init == i \in {1 + Chunk * j : j \in 0 .. 63}
Next == /\ i <= Len(Cases)
        /\ IF Ok(Cases[i]) THEN TRUE ELSE PrintT(ToJson([bad |-> i]))
        /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
