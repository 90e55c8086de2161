------------------------------- MODULE FedTrace -------------------------------
(* Is each recorded trace of the implementation a behaviour of the specification?                *)
EXTENDS FedRT, Json, IOUtils

Data == JsonDeserialize(IOEnv.FED_IN)
Traces == Data.traces
Progs == Data.progs

VARIABLES tr,     \* the trace
          l,      \* the next event
          done,   \* completed attempts
          fly,    \* calls in flight
          gone,   \* calls in flight that nobody waits for any more
          gh,     \* given-up calls that may still be about to be started
          ca,     \* the caller has cancelled the request
          te,     \* the time at which the last attempt of a call ended
          t0,     \* the earliest time at which a call may have been started
          ehs,    \* errors seen by the ErrorHandler
          lgs     \* levels of the logged failures
vars == <<tr, l, done, fly, gone, gh, ca, te, t0, ehs, lgs>>

Empty == [x \in {} |-> 0]
Rec(s) == [n \in {"$" \o x : x \in DOMAIN s} |-> s[CHOOSE x \in DOMAIN s : "$" \o x = n]]
T == Traces[tr]
P == Progs[T.prog]
Ctx == [p |-> P, done |-> done, fly |-> fly, eh |-> T.eh]
R == EvalMsg(Ctx, P.root, Rec(T.args))
Ev == T.ev[l]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ done = Empty
        /\ fly = {}
        /\ gone = {}
        /\ gh = {}
        /\ ca = FALSE
        /\ te = Empty
        /\ t0 = Empty
        /\ ehs = <<>>
        /\ lgs = <<>>

Id(e) == <<e.k, e.i>>
Short(it) == it[4] > 0 /\ it[4] < 10000

(* the elements of a set of handled failures against the observed list of errors *)
RECURSIVE Cover(_, _)
Cover(hf, obs) ==
  IF obs = <<>> THEN hf = {}
  ELSE \E h \in hf : obs[1].m = "/be.Backend/" \o h.site /\ Matches(h.e, obs[1].err) /\ Cover(hf \ {h}, Tail(obs))
(* every handled failure was seen; what given-up calls report is not specified *)
CoverSome(hf, obs) == \A h \in hf : \E j \in 1..Len(obs) : obs[j].m = "/be.Backend/" \o h.site /\ Matches(h.e, obs[j].err)

(* after an unhandled failure or a cancellation, calls with a timeout or a retry policy may be given up *)
Excused(r) == P.lossy /\ (r.er # {} \/ ca)

(* a custom resolver receives the arguments and variables of its message (and whatever else the  *)
(* generated struct has: variables of error blocks and the like)                                 *)
ReqEq(sp, ob) ==
  IF sp.t = "arg" /\ ob.t = "arg"
  THEN /\ \A n \in DOMAIN sp.f : Has(ob.f, n) /\ sp.f[n] = ob.f[n]
       /\ Has(sp, "m") => Has(ob, "m") /\ sp.m = ob.m
  ELSE sp = ob

(* the least time between attempt i of a call and the next one *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
MinWait(site, i) ==
  IF ~Has(P.waits, site) THEN 0
  ELSE LET w == P.waits[site]
           x == w.ms * Pow(w.mult, i - 1)
       IN IF w.mult > 1 /\ x > w.max THEN w.max ELSE x
Waited == IF Ev.i = 1 THEN TRUE ELSE Ev.ms + 1 >= te[Ev.k] + MinWait(Ev.site, Ev.i - 1)
StartOk(r) == Id(Ev) \notin fly /\ Waited /\ \E it \in r.fl : it[1] = Ev.k /\ it[2] = Ev.i /\ it[3] = Ev.site /\ ReqEq(it[5], Ev.req)
(* the goroutine of a call that has been given up gets to start it *)
GhostOk == \E it \in gh : it[1] = Ev.k /\ it[2] = Ev.i /\ it[3] = Ev.site /\ ReqEq(it[5], Ev.req)
EndOk == Id(Ev) \in fly \cup gone
QuietOk(r) == /\ Range(Ev.in) = {f[1] \o "@" \o ToString(f[2]) : f \in fly}
              /\ r.er = {} => \A it \in r.fl : <<it[1], it[2]>> \in fly
MethodExpired == /\ P.timeout > 0 /\ P.timeout < 10000
                 /\ Ev.ms >= P.timeout
                 /\ ~Ev.ok
                 /\ Ev.err.k = "st" /\ Ev.err.c = 4 /\ Ev.err.m = "context deadline exceeded"
                 /\ Ev.err.d = <<<<"info", "[" \o T.method \o "," \o P.tostr \o "]">>>>
LogsOk(level) == IF Ev.err.k = "st" THEN lgs = <<level>> ELSE lgs = <<>>
RetOk(r) ==
  IF Ev.ok
  THEN /\ r.st = "ok" /\ fly = {} /\ r.v = Ev.v /\ lgs = <<>>
       /\ Cover(r.hf, ehs)
  ELSE \/ /\ r.er # {}
          /\ Excused(r) \/ ~Flying(Ctx, r.fl)
          /\ \E e \in r.er : Matches(e, Ev.err) /\ LogsOk(e.lv)
          /\ IF Excused(r) THEN CoverSome(r.hf, ehs) ELSE Cover(r.hf, ehs)
       \/ /\ MethodExpired /\ LogsOk("ERROR")
       \/ /\ P.timeout > 0 /\ ca
          /\ Ev.err.k = "st" /\ Ev.err.c = 1 /\ Ev.err.m = "context canceled" /\ Ev.err.d = <<>>
          /\ LogsOk("ERROR")

(* a call that is enabled now cannot have been started before the last event *)
Prev == IF l = 1 THEN 0 ELSE T.ev[l - 1].ms
T0(r, k) == IF Has(t0, k) THEN t0[k] ELSE Prev
Times(r) == [k \in DOMAIN t0 \cup {it[1] : it \in r.fl} |-> T0(r, k)]

Others == <<done, fly, gone, gh, ca, te, ehs, lgs>>
Gone(it) ==     \* the call `it` is given up
  /\ fly' = fly \ {<<it[1], it[2]>>}
  /\ gone' = gone \cup (fly \cap {<<it[1], it[2]>>})
  /\ gh' = IF <<it[1], it[2]>> \in fly THEN gh ELSE gh \cup {it}

Step(r) ==
  CASE Ev.e = "start" ->
         \/ /\ StartOk(r)
            /\ fly' = fly \cup {Id(Ev)}
            /\ UNCHANGED <<done, gone, gh, ca, te, ehs, lgs>>
         \/ /\ ~StartOk(r) /\ GhostOk
            /\ gone' = gone \cup {Id(Ev)}
            /\ gh' = {it \in gh : it[1] # Ev.k}
            /\ UNCHANGED <<done, fly, ca, te, ehs, lgs>>
    [] Ev.e = "end" ->
         /\ EndOk
         /\ te' = (Ev.k :> Ev.ms) @@ te
         /\ IF Id(Ev) \in gone
            THEN /\ gone' = gone \ {Id(Ev)} /\ UNCHANGED <<done, fly>>
            ELSE /\ fly' = fly \ {Id(Ev)}
                 /\ done' = (Ev.k :> (Attempts(Ctx, Ev.k) \o
                       <<IF Ev.o.o = "gone" /\ \E it \in r.fl : it[1] = Ev.k /\ Short(it) /\ Ev.ms >= T0(r, Ev.k) + it[4]
                         THEN [Ev.o EXCEPT !.o = "expired"] ELSE Ev.o>>)) @@ done
                 /\ UNCHANGED gone
         /\ UNCHANGED <<gh, ca, ehs, lgs>>
    [] Ev.e = "quiet" -> QuietOk(r) /\ UNCHANGED Others
    [] Ev.e = "cancel" -> ca' = TRUE /\ UNCHANGED <<done, fly, gone, gh, te, ehs, lgs>>
    [] Ev.e = "eh" -> ehs' = Append(ehs, [m |-> Ev.m, err |-> Ev.err]) /\ UNCHANGED <<done, fly, gone, gh, ca, te, lgs>>
    [] Ev.e = "log" -> lgs' = (IF Ev.st THEN Append(lgs, Ev.lv) ELSE lgs) /\ UNCHANGED <<done, fly, gone, gh, ca, te, ehs>>
    [] Ev.e = "ret" -> RetOk(r) /\ PrintT("ACCEPT " \o T.id) /\ UNCHANGED Others
    [] Ev.e = "hang" -> FALSE

(* the timeout of a call that has been started *)
SiteOf(k) == LET j == CHOOSE j \in 1..Len(T.ev) : T.ev[j].e = "start" /\ T.ev[j].k = k IN T.ev[j].site
Timeout(k) == IF Has(P.touts, SiteOf(k)) THEN P.touts[SiteOf(k)] ELSE 0
(* the last attempt has ended, but the end of the context may be seen first *)
Ended(k) == done[k][Len(done[k])].o \notin {"expired", "gaveup"} /\ \A f \in fly : f[1] # k
Replace(k, o) ==
  /\ done' = (k :> [done[k] EXCEPT ![Len(done[k])] = o]) @@ done
  /\ UNCHANGED <<fly, gone, gh>>
Expired == [o |-> "expired", c |-> 4, m |-> "", d |-> <<>>, v |-> 0]

(* a call's timeout passes *)
Expire(r) ==
  /\ Ev.e # "quiet"
  /\ \/ \E it \in r.fl :
          /\ Short(it)
          /\ Ev.ms >= T0(r, it[1]) + it[4]
          /\ done' = (it[1] :> (Attempts(Ctx, it[1]) \o <<Expired>>)) @@ done
          /\ Gone(it)
     \/ \E k \in DOMAIN done :
          /\ Ended(k)
          /\ Timeout(k) > 0 /\ Timeout(k) < 10000
          /\ Ev.ms >= t0[k] + Timeout(k)
          /\ te[k] + 40 >= t0[k] + Timeout(k)
          /\ Replace(k, Expired)
  /\ UNCHANGED <<l, ca, te, ehs, lgs>>

(* when the request has failed or has been cancelled, a call waiting for its next attempt is given *)
(* up, and so is a call with a timeout (even before it has been sent, when it is cancelled)         *)
GiveUp(r) ==
  LET canceled == Err("st", 1, "context canceled", <<>>, "ERROR")
      gaveup(e) == [o |-> "gaveup", e |-> e]
  IN /\ Excused(r)
     /\ Ev.e # "quiet"
     /\ \/ \E it \in r.fl :
             LET flying == <<it[1], it[2]>> \in fly
                 last == ErrOf(done[it[1]][it[2] - 1])
                 e == IF it[4] > 0 /\ (flying \/ it[2] = 1) THEN {canceled}
                      ELSE IF it[4] > 0 THEN {canceled, last}
                      ELSE {last}
             IN /\ it[4] > 0 \/ (~flying /\ it[2] > 1)
                /\ \E x \in e : done' = (it[1] :> (Attempts(Ctx, it[1]) \o <<gaveup(x)>>)) @@ done
                /\ Gone(it)
        \/ \E k \in DOMAIN done : Ended(k) /\ Timeout(k) > 0 /\ Replace(k, gaveup(canceled))
     /\ UNCHANGED <<l, ca, te, ehs, lgs>>

Why(r) == CASE Ev.e = "start" -> "the call is not enabled"
            [] Ev.e = "end" -> "no such call"
            [] Ev.e = "quiet" -> "the calls in flight are not the enabled ones"
            [] Ev.e = "ret" -> "the outcome of the request is not the specified one"
            [] Ev.e = "hang" -> "the request did not return"
            [] OTHER -> "?"

Next ==
  /\ l <= Len(T.ev)
  /\ tr' = tr
  /\ LET r == R
     IN \/ Step(r) /\ l' = l + 1 /\ t0' = Times(r)
        \/ Expire(r) /\ t0' = Times(r)
        \/ GiveUp(r) /\ t0' = Times(r)
        \/ /\ T.explain
           /\ ~ENABLED (Step(r) /\ l' = l + 1)
           /\ PrintT("STUCK " \o ToJson([id |-> T.id, at |-> l, why |-> Why(r), st |-> r.st]))
           /\ PrintT(<<"EXPECTED", T.id, r, "flying", fly, "handled", ehs, "logs", lgs>>)
           /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
==============================================================================
