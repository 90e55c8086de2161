----------------------------- MODULE SrcLocTrace -----------------------------
(* Every recorded look-up, by position and by location, is what the specification asks for.                                  *)
EXTENDS SrcLoc, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
Bad(i, what, path, x) == PrintT(ToJson([doc |-> i, what |-> what, path |-> path, rec |-> x]))
Judge ==
  LET d == Log[n]
      N == d.nodes
      P == [k \in 1 .. Len(N) |-> Path(N, k)] IN
  /\ \A k \in 1 .. Len(d.locs) : IF LocOK(N, P, d.locs[k]) THEN TRUE ELSE Bad(n, "locate", P[d.locs[k].i], d.locs[k])
  /\ \A k \in 1 .. Len(d.built) : IF d.built[k].path = P[d.built[k].i] THEN TRUE ELSE Bad(n, "build", P[d.built[k].i], d.built[k])
  /\ \A k \in 1 .. Len(d.runs) : IF FoundOK(N, P, d.runs[k]) THEN TRUE ELSE Bad(n, "found", <<>>, d.runs[k])
  /\ \A k \in 1 .. Len(N) : IF SeenOK(N, P, k, d.runs) THEN TRUE ELSE Bad(n, "find", P[k], N[k])
Init == n \in 1 .. Len(Log)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
=============================================================================
