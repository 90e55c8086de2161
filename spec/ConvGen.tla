----------------------------- MODULE ConvGen -----------------------------
(* Enumerates the inputs of the sampled cases. *)
EXTENDS Conv, TLC, IOUtils, Json
VARIABLES i
Cs == ndJsonDeserialize(IOEnv.CONV_CASES)
Init == i \in 1..Len(Cs)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Strip(c) == [from |-> c.from, to |-> c.to, sfrom |-> c.sfrom, sto |-> c.sto, src |-> c.src, place |-> c.place]
(* the specification itself: something is always allowed, only numbers overflow, and a conversion to the same type that is *)
(* not the zero value gives the same value                                                                                 *)
Sane(c) == \A v \in Inputs(c) : /\ Allowed(c, v) # {}
                                /\ (Fails \in Allowed(c, v) => (Edge(c, v) \/ Allowed(c, v) = {Fails}) /\ c.to \in Numbers)
                                /\ (c.from = c.to /\ v.m = "f" /\ c.sfrom = c.sto /\ (\A j \in DOMAIN v.e : v.e[j] # Zero(c.from)) => Allowed(c, v) = {v})
Emit == /\ Assert(Sane(Strip(Cs[i])), Cs[i])
        /\ PrintT(ToJson([i |-> i, in |-> Inputs(Strip(Cs[i]))]))
===========================================================================
