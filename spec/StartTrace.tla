---------------------------- MODULE StartTrace ----------------------------
(* Recorded start-ups: what constructing the service did, and the values every later request saw, must be what StartUp.tla says. *)
EXTENDS StartUp, IOUtils, Json
VARIABLES i
Progs == ndJsonDeserialize(IOEnv.START_PROGS)
Runs == ndJsonDeserialize(IOEnv.START_TRACE)
Chunk == 1 + Len(Runs) \div 64
Init == \E c \in 0 .. 63 : i = 1 + Chunk * c
Val(x) == [ok |-> TRUE, s |-> x.s, e |-> x.e, m |-> {<<x.m[k][1], x.m[k][2]>> : k \in 1 .. Len(x.m)}]
Want(r) == Start(Progs[r.p], r.os, r.cfg, r.fails)
Named(p) == {k \in 1 .. Len(p.vars) : p.vars[k].form # "val"}
RECURSIVE Pick(_, _, _)
Pick(p, vals, k) == IF k > Len(vals) THEN <<>> ELSE (IF k \in Named(p) THEN <<vals[k]>> ELSE <<>>) \o Pick(p, vals, k + 1)
Ok(r, w) ==
  /\ r.calls = w.calls
  /\ r.ok = (w.err = "")
  /\ (w.err = "invalid" => r.code = 13 /\ r.msg = w.msg)
  /\ (w.err = "" => LET want == w.env \o Pick(Progs[r.p], w.vals, 1)
                    IN \A q \in 1 .. Len(r.reqs) : /\ Len(r.reqs[q]) = Len(want)
                                                   /\ \A k \in 1 .. Len(want) : Val(r.reqs[q][k]) = want[k])
Next == /\ i <= Len(Runs) /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > Len(Runs) \/ LET w == Want(Runs[i]) IN IF Ok(Runs[i], w) THEN PrintT(ToJson([good |-> i, err |-> w.err])) ELSE PrintT(ToJson([bad |-> i, want |-> w]))
===========================================================================
