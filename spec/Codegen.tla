------------------------------ MODULE Codegen ------------------------------
(* The stages a schema goes through: it is parsed, resolved (with warnings or not), turned into Go, and compiled. A stage   *)
(* may refuse a schema, but a schema the resolver accepted was promised code: generation and compilation can't fail, unless *)
(* the Go that protoc-gen-go and protoc-gen-go-grpc make of the schema isn't valid already. And the resolver may refuse     *)
(* only what the language leaves open.                                                                                      *)
EXTENDS Naturals
Stages == {"written", "parsed", "refused", "resolved", "generated", "compiled", "stuck"}
VARIABLES stage, own, open
vars == << stage, own, open >>

Init == /\ stage = "written"
        /\ own \in BOOLEAN   (* the other plugins' code for the schema is valid Go *)
        /\ open \in BOOLEAN  (* the language leaves open whether the schema is accepted *)
Parse == stage = "written" /\ stage' \in {"parsed", "refused"}
Resolve == stage = "parsed" /\ stage' \in (IF open THEN {"resolved", "refused"} ELSE {"resolved"})
Generate == stage = "resolved" /\ stage' \in (IF own THEN {"generated"} ELSE {"generated", "stuck"})
Compile == stage = "generated" /\ stage' \in (IF own THEN {"compiled"} ELSE {"compiled", "stuck"})
Next == (Parse \/ Resolve \/ Generate \/ Compile) /\ UNCHANGED << own, open >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what is accepted compiles *)
Promise == own => stage # "stuck"
Kept == (stage = "resolved" /\ own) ~> (stage = "compiled")
=============================================================================
