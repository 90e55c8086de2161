---------------------------- MODULE StartGen ----------------------------
(* All ways to declare one environment variable and, for each, all states of the operating system's variables it may meet. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES d, os
Kinds == [c : {"one", "list", "map"}, k : {"string", "bool", "int", "uint", "double", "duration"}]
Decls == [kind : Kinds, alt : BOOLEAN, def : {"none", "good", "bad"}, req : BOOLEAN, ign : BOOLEAN]
\* the variable of its key: unset, or set to a good, bad, empty or blank text; other: the variable of the name that the alternate replaces
States == [key : {"unset", "good", "bad", "empty", "blank"}, other : BOOLEAN]
Sensible(x) == (x.def = "bad") => x.kind.k # "string" \/ x.kind.c = "map"
Init == /\ d \in {x \in Decls : Sensible(x)}
        /\ os \in {s \in States : (s.other => d.alt) /\ (s.key = "bad" => d.kind.k # "string" \/ d.kind.c = "map")}
Next == UNCHANGED <<d, os>>
Spec == Init /\ [][Next]_<<d, os>>
Emit == PrintT(ToJson([d |-> d, os |-> os]))
=========================================================================
