---------------------------- MODULE ConvTrace ----------------------------
(* Recorded conversions: each result must be one Conv.tla allows. *)
EXTENDS Conv, TLC, IOUtils, Json
VARIABLES i
Runs == ndJsonDeserialize(IOEnv.CONV_TRACE)
Cs == ndJsonDeserialize(IOEnv.CONV_CASES)
Strip(c) == [from |-> c.from, to |-> c.to, sfrom |-> c.sfrom, sto |-> c.sto, src |-> c.src, place |-> c.place]
Chunk == 1 + Len(Runs) \div 64
Init == \E c \in 0 .. 63 : i = 1 + Chunk * c
Ok(r) == LET v == [m |-> r.in.m, e |-> r.in.e] o == [m |-> r.out.m, e |-> r.out.e] IN o \in Allowed(Strip(Cs[r.i]), v)
Next == /\ i <= Len(Runs) /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > Len(Runs) \/ IF Ok(Runs[i]) THEN TRUE ELSE PrintT(ToJson([bad |-> i, allowed |-> Allowed(Strip(Cs[Runs[i].i]), [m |-> Runs[i].in.m, e |-> Runs[i].in.e])]))
===========================================================================
