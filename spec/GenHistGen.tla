----------------------------- MODULE GenHistGen -----------------------------
(* Random histories (TLC's simulation) of GH_LEN operations, watching or not. *)
EXTENDS GenHist, TLC, IOUtils, Json
VARIABLES s, h, watch
Length == atoi(IOEnv.GH_LEN)
Start == [f \in FileSet |-> IF f = "c" THEN None ELSE "v1"]
Init == s = [disk |-> Start, cache |-> Start, written |-> Start] /\ h = << >> /\ watch \in BOOLEAN
Also(f) == IF Len(h) % 3 = 1 THEN {{}} \cup {{g} : g \in {g \in FileSet \ {f} : s.disk[g] # None}} ELSE {{}}
Next ==
  /\ Len(h) < Length
  /\ \E p \in Ops, f \in FileSet, v \in Good \cup Bad \cup {None}, told \in {TRUE, watch \/ Len(h) % 4 = 2} :
       /\ p = "noise" => f = "a" /\ watch
       /\ \E al \in Also(f) :
            LET o == [op |-> p, f |-> f, v |-> v, also |-> al, told |-> told]
            IN /\ Enabled(s, o)
               /\ al # {} => Told(Changed(s, o), o, watch)
               /\ s' = Step(s, o, watch)
               /\ h' = Append(h, [o EXCEPT !.also = IF al = {} THEN << >> ELSE <<CHOOSE x \in al : TRUE>>])
  /\ UNCHANGED watch
Spec == Init /\ [][Next]_<<s, h, watch>>
Emit == Len(h) = Length => PrintT(ToJson([watch |-> watch, h |-> h]))
=============================================================================
