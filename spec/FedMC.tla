-------------------------------- MODULE FedMC --------------------------------
(* The specification itself, checked exhaustively on small programs: every order in which the    *)
(* calls can complete, every choice of whether calls that become enabled after a failure are     *)
(* still started, and every single site failing. The invariants state R01-R04, R08 and R12       *)
(* without the operational definitions.                                                          *)
EXTENDS FedScript

VARIABLES fly,    \* the calls in flight (with their requests)
          force   \* the site whose calls all fail; "" as scripted; "*" all calls succeed

mcvars == <<sc, done, steps, over, fly, force>>

IsCall(s) == Scen[sc].sites[s].kind = "call"
Fail == [o |-> "err", c |-> 5, m |-> "forced", d |-> <<>>, v |-> 0]
Ans(it) ==
  LET a == Answer(it)
      u == IF Hangs(a.o) THEN [a EXCEPT !.o = "expired"] ELSE a
  IN IF force = it[3] /\ it[2] <= 2 THEN Fail
     ELSE IF force # "" /\ u.o # "ok" THEN [Fail EXCEPT !.c = 6]
     ELSE u

Ctx(dn, fl) == [p |-> P, done |-> dn, fly |-> {<<f[1], f[2]>> : f \in fl}, eh |-> Scen[sc].eh]
Ev(dn, fl) == EvalMsg(Ctx(dn, fl), P.root, Rec(Scen[sc].args))
Now == Ev(done, fly)

(* everything that can be called is called *)
RECURSIVE Saturate(_)
Saturate(dn) ==
  LET r == Ev(dn, {})
  IN IF r.fl = {} THEN r
     ELSE LET it == CHOOSE x \in r.fl : TRUE
          IN Saturate((it[1] :> ((IF Has(dn, it[1]) THEN dn[it[1]] ELSE <<>>) \o <<Ans(it)>>)) @@ dn)

MCInit ==
  /\ Init
  /\ force \in {""} \cup {s \in DOMAIN Scen[sc].sites : IsCall(s)}
  /\ fly = Ev(Empty, {}).fl

Step(it) ==
  LET dn == (it[1] :> (Attempts(C, it[1]) \o <<Ans(it)>>)) @@ done
      f0 == fly \ {it}
      r == Ev(dn, f0)
  IN /\ done' = dn
     /\ IF r.er = {} THEN fly' = r.fl
        ELSE \E more \in SUBSET (r.fl \ f0) : fly' = f0 \cup more
     /\ UNCHANGED <<sc, steps, over, force>>

MCNext == \E it \in fly : Step(it)
MCSpec == MCInit /\ [][MCNext]_mcvars

--------------------------------------------------------------------------------
Ok(r) == r.er = {} /\ r.fl = {}

(* R02: a call has one attempt at a time, and no attempt is made twice *)
OneAttempt ==
  \A x \in Now.fl : /\ x[2] = Len(Attempts(C, x[1])) + 1
                    /\ \A y \in Now.fl : y[1] = x[1] => y = x
(* R01: a call that has been started with a request is still wanted, with this request: nothing it was
   computed from can change any more *)
Stable == Now.er = {} => fly = Now.fl
(* R04 (and R03): a request that is neither answered nor failed has calls in flight *)
Progress == LET r == Now IN CASE r.st = "ok" -> fly = {} /\ r.fl = {} /\ r.er = {}
                              [] r.st = "err" -> r.er # {}
                              [] OTHER -> fly # {} \/ r.er # {}
Drained == (fly = {} /\ Now.st # "ok") => Now.er # {}
(* the answer does not depend on the order; without failures it is the one where everything has been called;
   a failure is one of those that happen when everything is called *)
Confluent ==
  fly = {} =>
    LET r == Now
        s == Saturate(Empty)
    IN IF s.er = {} THEN r.st = "ok" /\ s.st = "ok" /\ r.v = s.v /\ r.hf = s.hf
       ELSE r.er # {} /\ r.er \subseteq s.er /\ r.hf \subseteq s.hf
(* R08: never more attempts than the policy allows, and none after a success *)
AttemptsOk ==
  /\ \A k \in DOMAIN done : \A i \in 1..(Len(done[k]) - 1) : done[k][i].o \in {"err", "plain", "gone"}
  /\ \A x \in Now.fl : IF Has(P.maxes, x[3]) THEN P.maxes[x[3]] = 0 \/ x[2] <= P.maxes[x[3]] ELSE x[2] = 1
(* R04: a failure is final; what has been handled stays handled *)
Final == [][Now.er \subseteq Ev(done', fly').er /\ Now.hf \subseteq Ev(done', fly').hf]_mcvars
==============================================================================
