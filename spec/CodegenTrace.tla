---------------------------- MODULE CodegenTrace ----------------------------
(* Recorded runs: the stages a schema went through in the real resolver and generator. Each must be a behaviour of Codegen; *)
(* the cases tell which schemas the language leaves open.                                                                   *)
EXTENDS CodegenCases, TLC, Json, IOUtils
C == INSTANCE ConvCases
VARIABLES i, k, stage, own, open
M == INSTANCE Codegen
Runs == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 1 + Len(Runs) \div 64
IsOpen(r) ==
  CASE r.kind = "conv" -> C!MayReject(r.conv)
    [] r.kind = "name" -> MayReject(r.set[1][1], r.set[1][2])
    [] r.kind = "text" -> FALSE
    [] r.kind = "accepted" -> FALSE
    [] OTHER -> TRUE
Start(n) == /\ stage = "written"
            /\ own = (IF n <= Len(Runs) THEN Runs[n].own ELSE TRUE)
            /\ open = (IF n <= Len(Runs) THEN IsOpen(Runs[n]) ELSE TRUE)
Init == \E c \in 0 .. 63 : i = 1 + Chunk * c /\ k = 1 /\ Start(1 + Chunk * c)
Done == IF k > Len(Runs[i].stages) THEN TRUE ELSE FALSE
Step == /\ i <= Len(Runs) /\ ~Done
        /\ stage' = Runs[i].stages[k] /\ UNCHANGED << own, open, i >>
        /\ IF M!Next THEN k' = k + 1 ELSE PrintT(ToJson([bad |-> i, stage |-> Runs[i].stages[k]])) /\ k' = Len(Runs[i].stages) + 1
(* a run ends refused or compiled, or stuck where that is allowed *)
Advance == /\ i <= Len(Runs) /\ Done /\ i % Chunk # 0
           /\ i' = i + 1 /\ k' = 1
           /\ stage' = "written"
           /\ own' = (IF i + 1 <= Len(Runs) THEN Runs[i + 1].own ELSE TRUE)
           /\ open' = (IF i + 1 <= Len(Runs) THEN IsOpen(Runs[i + 1]) ELSE TRUE)
Next == Step \/ Advance
TraceSpec == Init /\ [][Next]_<< i, k, stage, own, open >>
=============================================================================
