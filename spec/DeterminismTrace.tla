-------------------------- MODULE DeterminismTrace --------------------------
(* Recorded histories: each has the number of its inputs and events with the
   digest of the real answer.                                               *)
EXTENDS Determinism, TLC, Json, IOUtils
VARIABLES i, j, known
Cases == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 1 + Len(Cases) \div 64
Fresh == [x \in {} |-> Unknown]
Start(k) == IF k <= Len(Cases) THEN [x \in 1 .. Cases[k].inputs |-> Unknown] ELSE Fresh
Init == \E c \in 0 .. 63 : i = 1 + Chunk * c /\ j = 1 /\ known = Start(1 + Chunk * c)
Step == /\ i <= Len(Cases) /\ j <= Len(Cases[i].events)
        /\ LET e == Cases[i].events[j] IN
             /\ IF Agrees(known, e, e.answer) THEN TRUE ELSE PrintT(ToJson([bad |-> i, event |-> j]))
             /\ known' = Learn(known, e, e.answer)
        /\ j' = j + 1 /\ i' = i
NextHistory == /\ i <= Len(Cases) /\ j > Len(Cases[i].events)
               /\ i % Chunk # 0
               /\ i' = i + 1 /\ j' = 1 /\ known' = Start(i + 1)
Next == Step \/ NextHistory
Spec == Init /\ [][Next]_<<i, j, known>>
=============================================================================
