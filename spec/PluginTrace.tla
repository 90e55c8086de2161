---------------------------- MODULE PluginTrace ----------------------------
(* Are the recorded histories linearizable with respect to the specification?                      *)
EXTENDS PluginHost, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.PLUG_TRACE)

VARIABLES tr, l, st, pend, eff
vars == <<tr, l, st, pend, eff>>

T == Traces[tr]
Ev == T.ev[l]
Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = [i \in 1..T.insts |-> "alive"]
        /\ pend = {}                    \* requests invoked and not returned
        /\ eff = [k \in {} |-> ""]     \* the states in which requests took effect

(* the state of the instance changes only by `die` and `close`: the others are taken to take effect  *)
(* in every state between invocation and return at which they fit                                 *)
Changes(q) == q.op \in {"die", "close"}
Seen == [k \in DOMAIN eff \cup {q.k : q \in pend} |-> (IF k \in DOMAIN eff THEN eff[k] ELSE {})]

Note(s, p, e) ==   \* every pending request could take effect now
  [k \in DOMAIN e \cup {q.k : q \in p} |->
     (IF k \in DOMAIN e THEN e[k] ELSE {}) \cup {s[q.in] : q \in {x \in p : x.k = k /\ ~Changes(x)}}]

Inv == /\ Ev.e = "inv"
       /\ pend' = pend \cup {Ev}
       /\ eff' = Note(st, pend', eff)
       /\ l' = l + 1
       /\ UNCHANGED <<tr, st>>
Ret == /\ Ev.e = "ret"
       /\ \E q \in pend : /\ q.k = Ev.k
                          /\ \E s \in eff[q.k] : Fits(q, s, Ev.o, Ev.v)
                          /\ pend' = pend \ {q}
                          /\ eff' = [k \in DOMAIN eff \ {q.k} |-> eff[k]]
       /\ l' = l + 1
       /\ UNCHANGED <<tr, st>>
Effect == \E q \in pend :
            /\ Changes(q)
            /\ eff[q.k] = {}
            /\ st' = [st EXCEPT ![q.in] = After(q, @)]
            /\ eff' = [Note(st', pend, eff) EXCEPT ![q.k] = {st[q.in]}]
            /\ UNCHANGED <<tr, l, pend>>

Next == l <= Len(T.ev) /\ (Inv \/ Ret \/ Effect)
Spec == Init /\ [][Next]_vars

Judge == l > Len(T.ev) => PrintT("ACCEPT " \o ToString(T.id))
(* an instance that is not alive never becomes alive, and nothing but its own requests changes it *)
Monotone == [][\A i \in 1..T.insts : st[i] # "alive" => st'[i] = st[i]]_vars
=============================================================================
