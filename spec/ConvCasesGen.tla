-------------------------- MODULE ConvCasesGen --------------------------
EXTENDS ConvCases, TLC, Json
VARIABLE c
Init == /\ c \in [from : Types, to : Types, sfrom : Shapes, sto : Shapes, src : Sources, place : Places]
        /\ IsCase(c)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
