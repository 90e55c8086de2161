----------------------------- MODULE CodecTrace -----------------------------
(* Dumps of the resolver's result (g), of what a plugin decodes (h), and the
   pairs (r) of nodes reached in the same way, with the texts generated from
   both.  m says whether both sides have the reached positions (the lengths
   agree everywhere).                                                       *)
EXTENDS Codec, TLC, Json, IOUtils
VARIABLE i
Cases == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 1 + Len(Cases) \div 64
ToSet(s) == {s[j] : j \in DOMAIN s}
Check(k) ==
    LET c == Cases[k] R == ToSet(c.r) IN
    /\ \A p \in R : IF LocallySame(c.g, c.h, R, p) THEN TRUE ELSE PrintT(ToJson([bad |-> k, what |-> "node", o |-> p[1], d |-> p[2]]))
    /\ LET E == EntityPairs(c.g, R) IN
       IF OneToOne(E) THEN TRUE ELSE PrintT(ToJson([bad |-> k, what |-> "identity", o |-> 0, d |-> 0]))
    /\ IF <<1, 1>> \in R THEN TRUE ELSE PrintT(ToJson([bad |-> k, what |-> "root", o |-> 1, d |-> 1]))
    /\ \A j \in DOMAIN c.t : IF c.t[j][1] = c.t[j][2] THEN TRUE ELSE PrintT(ToJson([bad |-> k, what |-> "text", o |-> j, d |-> j]))
Init == \E c \in 0 .. 63 : i = 1 + Chunk * c
Next == /\ i <= Len(Cases) /\ Check(i)
        /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
