------------------------- MODULE CodegenCasesGen -------------------------
(* Prints the cases of CodegenCases. *)
EXTENDS CodegenCases, TLC, Json
VARIABLE c
NC(x) == [kind |-> "name", set |-> << << x.role, x.name >> >>]
WC(x) == [kind |-> "twin", set |-> << << x.roles[1], x.names[1] >>, << x.roles[2], x.names[2] >> >>]
SC(x) == [kind |-> "same", set |-> << << x.roles[1], x.name >>, << x.roles[2], x.name >> >>]
TC(x) == [kind |-> "text", set |-> << << x.role, x.text >> >>]
Init == \/ \E x \in NameCases : c = NC(x)
        \/ \E x \in TwinCases : c = WC(x)
        \/ \E x \in SameCases : c = SC(x)
        \/ \E x \in TextCases : c = TC(x)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(ToJson(c))
=============================================================================
