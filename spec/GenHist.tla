------------------------------ MODULE GenHist ------------------------------
(* What a generator that stays alive (watch mode, or Generate called again and again) knows, reports and has written, over  *)
(* histories of file operations: G01. Variants "v1", "v2" and "v3" of a file generate, "bad..." ones do not.               *)
EXTENDS Naturals, Sequences, FiniteSets

FileSet == {"a", "b", "c"}
Good == {"v1", "v2", "v3"}
Bad == {"badsyntax", "badname", "empty"}
None == "none"

(* disk: the variant of each file, or none; cache: the variant each known file was last generated from; written: the variant *)
(* whose output is on disk                                                                                                  *)
State == [disk : [FileSet -> Good \cup Bad \cup {None}], cache : [FileSet -> Good \cup {None}], written : [FileSet -> Good \cup {None}]]
Known(s) == {f \in FileSet : s.cache[f] # None}

(* the operations: [op, f, v]; op "write" writes into the file, "move" puts a new file there, "delete" and "away" remove it, *)
(* "noise" changes a file that is no proto file; also[g]: files removed while the event is being handled, which goes        *)
(* unnoticed; told: whether the generator is told (always, when it watches)                                                 *)
Ops == {"write", "move", "delete", "away", "noise"}
Enabled(s, o) ==
  /\ o.op \in {"write", "delete", "away"} => s.disk[o.f] # None
  /\ o.op \in {"write", "move"} <=> o.v # None

Changed(s, o) == CASE o.op \in {"write", "move"} -> [s EXCEPT !.disk[o.f] = o.v] [] o.op = "noise" -> s [] OTHER -> [s EXCEPT !.disk[o.f] = None]

(* the event of o in state s (after the change): its results, or nothing when the file cannot be generated *)
Succeeds(s, f) == s.disk[f] \in Good \cup {None}
Others(s, f) == {[f |-> g, type |-> IF s.disk[g] = None THEN "delete" ELSE "keep", v |-> s.cache[g]] : g \in Known(s) \ {f}}
(* replacing a known file may be reported as creation or as update *)
Own(s, f) == IF s.disk[f] = None THEN {[f |-> f, type |-> "delete", v |-> s.cache[f]]}
             ELSE {[f |-> f, type |-> t, v |-> s.disk[f]] : t \in IF s.cache[f] = None THEN {"create", "update"} ELSE {"update", "create"}}
Results(s, f) == {Others(s, f) \cup {o} : o \in Own(s, f)}
Handled(s, f) ==
  [s EXCEPT !.cache = [g \in FileSet |-> IF g = f THEN s.disk[f] ELSE IF s.disk[g] = None THEN None ELSE s.cache[g]],
            !.written = [g \in FileSet |-> IF g = f THEN s.disk[f] ELSE IF s.disk[g] = None /\ s.cache[g] # None THEN None
                                           ELSE IF s.cache[g] # None THEN s.cache[g] ELSE s.written[g]]]
Without(s, gs) == [s EXCEPT !.disk = [g \in FileSet |-> IF g \in gs THEN None ELSE s.disk[g]]]

(* watching: the event is handled, unless its file cannot be generated; a Generate call on a missing file fails, too *)
Told(s, o, watch) == o.op # "noise" /\ o.told /\ Succeeds(s, o.f) /\ (watch \/ s.disk[o.f] # None)
Step(s, o, watch) == LET t == Changed(s, o) IN IF Told(t, o, watch) THEN Without(Handled(t, o.f), o.also) ELSE t

(* what is written is what is known, and what is known is what is on disk, but for files that cannot be generated or whose  *)
(* removal has gone unnoticed                                                                                                *)
Consistent(s) == s.written = s.cache
Fresh(s, missed) == \A f \in FileSet : s.disk[f] \in Good \cup {None} /\ f \notin missed => s.cache[f] = s.disk[f]
=============================================================================
