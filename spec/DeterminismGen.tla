--------------------------- MODULE DeterminismGen ---------------------------
(* All histories of MaxLen events.  MAny is an implementation whose answer may
   depend on the whole history; only those which answer by the input alone
   satisfy the contract, which TLC checks on the small instance: every
   history in which all answers agreed contains, for each input, one answer. *)
EXTENDS Determinism, TLC, Json
CONSTANTS Inputs, Dirs, Answers, MaxLen
VARIABLES h, a, known, ok

Init == h = <<>> /\ a = <<>> /\ known = [i \in Inputs |-> Unknown] /\ ok = TRUE
Next == /\ ok /\ Len(h) < MaxLen
        /\ \E e \in Event(Inputs, Dirs), x \in Answers :
              /\ h' = Append(h, e)
              /\ a' = Append(a, x)
              /\ ok' = Agrees(known, e, x)
              /\ known' = Learn(known, e, x)
Spec == Init /\ [][Next]_<<h, a, known, ok>>

Function == \A i, j \in DOMAIN h : h[i].input = h[j].input => a[i] = a[j]
Inv == ok <=> Function
Emit == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
