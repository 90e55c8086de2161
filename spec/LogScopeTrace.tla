---------------------------- MODULE LogScopeTrace ----------------------------
(* Can the records of each request be explained by the specification? Their order is not used:    *)
(* each record has to have the attributes of its scope at some moment at which it may be logged.   *)
EXTENDS LogScope, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.LOG_PROGS)
Traces == ndJsonDeserialize(IOEnv.LOG_TRACE)

VARIABLES tr, at, ms, pc, seen, failed
vars == <<tr, at, ms, pc, seen, failed>>

T == Traces[tr]
P == Progs[T.p].msgs
Range(s) == {s[i] : i \in 1..Len(s)}
Obs(id) == {Range(T.recs[i].at) : i \in {j \in 1..Len(T.recs) : T.recs[j].id = id}}
Unique == Cardinality({T.recs[i].id : i \in 1..Len(T.recs)}) = Len(T.recs)

Init == /\ tr \in 1..Len(Traces)
        /\ at = (T.r :> {})
        /\ ms = (T.r :> 1)
        /\ pc = [x \in {} |-> 0]
        /\ seen = {"enter@" \o T.r} \cap {T.recs[i].id : i \in 1..Len(T.recs)}
        /\ failed = FALSE

Fits(p, a) == Obs(a.id) = {at[p] \cup (IF a.x THEN {"x=1"} ELSE {})}
Urgent(e) == \/ e[3].a \in {"emit", "fail"} /\ Fits(e[1], e[3])
             \/ e[3].a = "exit" /\ ScopeDone(P, ms, pc, e[3].to)
EnterFits(p, a) == Obs("enter@" \o a.to) \in {{}, {at[p]}}

Fire(e) ==
  LET p == e[1]
      a == e[3]
  IN /\ pc' = (<<p, e[2]>> :> (Pc(pc, p, e[2]) + 1)) @@ pc
     /\ failed' = (a.a = "fail")
     /\ UNCHANGED tr
     /\ CASE a.a \in {"emit", "fail"} -> seen' = seen \cup {a.id} /\ UNCHANGED <<at, ms>>
          [] a.a = "exit" -> UNCHANGED <<at, ms, seen>>
          [] a.a = "add" -> at' = [at EXCEPT ![p] = @ \cup {a.k}] /\ UNCHANGED <<ms, seen>>
          [] a.a = "enter" -> /\ EnterFits(p, a)
                              /\ at' = (a.to :> at[p]) @@ at
                              /\ ms' = (a.to :> a.m) @@ ms
                              /\ seen' = seen \cup (IF Obs("enter@" \o a.to) = {} THEN {} ELSE {"enter@" \o a.to})

Over == failed \/ ScopeDone(P, ms, pc, T.r)
Good == /\ Unique
        /\ Obs("enter@" \o T.r) \in {{}, {{}}}
        /\ seen = {T.recs[i].id : i \in 1..Len(T.recs)}
        /\ T.ok = ~failed

(* Only the actions of one scope are tried at a time, one that no child keeps waiting: actions of   *)
(* different scopes commute (a child takes its attributes when it is entered).                     *)
Leaf(p) == \A q \in DOMAIN ms : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p) + 1) = p \o "." => ScopeDone(P, ms, pc, q)

Next ==
  /\ ~Over
  /\ LET en == Enabled(P, ms, pc)
         urgent == {e \in en : Urgent(e)}
         leaves == {e[1] : e \in {x \in en : x[3].a \in {"add", "enter"} /\ Leaf(x[1])}}
     IN IF urgent # {} THEN Fire(CHOOSE e \in urgent : TRUE)
        ELSE /\ leaves # {}
             /\ LET p == CHOOSE q \in leaves : TRUE
                IN \E e \in en : e[1] = p /\ e[3].a \in {"add", "enter"} /\ Fire(e)

Spec == Init /\ [][Next]_vars

Judge == Over /\ Good => PrintT("ACCEPT " \o ToString(tr))

(* the property itself, on every reachable state of the specification: a scope has attributes of  *)
(* itself and of the scopes it was entered from only                                             *)
PathOf(k) == SubSeq(k, (CHOOSE i \in 1..Len(k) : SubSeq(k, i, i) = "=") + 1, Len(k))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
NoLeak == \A p \in DOMAIN at : \A k \in at[p] : IsPrefix(PathOf(k), p)
=============================================================================
