------------------------------ MODULE SrcLocGen ------------------------------
(* The table of elements, and all orders of up to MaxLen declarations at each level of a file.                               *)
EXTENDS SrcLoc, Json
CONSTANT MaxLen
Items == [root |-> {"import", "fileimport", "go_package", "message", "enum", "service"},
          msg |-> {"field", "fieldopt", "mapfield", "oneof", "message", "enum", "optlit", "optpath"},
          enum |-> {"optlit", "optpath", "value", "valueopt"},
          svc |-> {"optlit", "rpc", "rpcopt"},
          def |-> {"by", "call", "message", "map", "enum", "validation"}]
VARIABLE c, s
Init == c \in DOMAIN Items /\ s = <<>>
Next == Len(s) < MaxLen /\ c' = c /\ \E x \in Items[c] : s' = Append(s, x)
Count(x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
Show == PrintT(ToJson([c |-> c, items |-> s]))
ASSUME PrintT(ToJson([c |-> "table", table |-> Table]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
