--------------------------- MODULE MsgGraphTrace ---------------------------
EXTENDS MsgGraph, Json, IOUtils
VARIABLE i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 1 + Len(Cases) \div 64
Init == i \in {1 + Chunk * j : j \in 0 .. 63}
Next == /\ i <= Len(Cases)
        /\ IF Cases[i].res = Verdict(Cases[i]) THEN TRUE ELSE PrintT(ToJson([bad |-> i, want |-> Verdict(Cases[i])]))
        /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
