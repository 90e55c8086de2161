------------------------------- MODULE FedRT -------------------------------
(* Semantics of a federation service at run time.                                              *)
(*                                                                                              *)
(* A program (the abstract syntax of the proto options) and the outcomes of the backend calls   *)
(* that have completed so far determine: which calls must be in flight now, with which          *)
(* requests; whether the method has failed, and with which errors; or what it returns.          *)
(*                                                                                              *)
(* The context C of an evaluation is a record                                                   *)
(*   p    : the program (record of messages, see vh/ast.go)                                     *)
(*   done : function from call key to the sequence of outcomes of its completed attempts        *)
(*   fly  : set of <<key, attempt>> started and not completed                                   *)
(*   eh   : function from site to the behaviour of the service's ErrorHandler for its method    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NilMsg == [t |-> "nil"]
None == [k |-> "none"]
IsNone(e) == e.k = "none"
Has(r, f) == f \in DOMAIN r
Range(s) == {s[i] : i \in 1..Len(s)}

--------------------------------------------------------------------------------
(* Expressions. Every evaluation yields [o |-> TRUE, v |-> value] or [o |-> FALSE, v |-> 0].    *)

Okv(v) == [o |-> TRUE, v |-> v]
Bad == [o |-> FALSE, v |-> 0]

RECURSIVE Eval(_, _), EvalAll(_, _, _), Keep(_, _, _), MapSeq(_, _, _)

EvalAll(es, env, i) ==      \* values of es[i..] as a sequence, or Bad
  IF i > Len(es) THEN Okv(<<>>)
  ELSE LET a == Eval(es[i], env)
       IN IF ~a.o THEN Bad
          ELSE LET b == EvalAll(es, env, i + 1)
               IN IF b.o THEN Okv(<<a.v>> \o b.v) ELSE Bad

Keep(s, x, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] >= x THEN <<s[i]>> ELSE <<>>) \o Keep(s, x, i + 1)
MapSeq(s, f, i) == IF i > Len(s) THEN <<>>
                   ELSE <<IF s[i].t = "nil" THEN (IF f = "n" THEN 0 ELSE "") ELSE s[i].f[f]>> \o MapSeq(s, f, i + 1)

(* the texts of the details of a kind *)
RECURSIVE OfKind(_, _, _)
OfKind(d, kind, i) == IF i > Len(d) THEN <<>> ELSE (IF d[i][1] = kind THEN <<d[i][2]>> ELSE <<>>) \o OfKind(d, kind, i + 1)

Strict(op, a) ==            \* operators on evaluated arguments
  CASE op = "+" -> Okv(a[1] + a[2])
    [] op = "cat" -> Okv(a[1] \o a[2])
    [] op = "catl" -> Okv(a[1] \o a[2])
    [] op = "eq" -> Okv(a[1] = a[2])
    [] op = "ne" -> Okv(a[1] # a[2])
    [] op = "lt" -> Okv(a[1] < a[2])
    [] op = "ge" -> Okv(a[1] >= a[2])
    [] op = "not" -> Okv(~a[1])
    [] op = "size" -> Okv(Len(a[1]))
    [] op = "idx" -> IF a[2] >= 0 /\ a[2] < Len(a[1]) THEN Okv(a[1][a[2] + 1]) ELSE Bad
    [] op = "list" -> Okv(a)
    [] op = "tostr" -> Okv(ToString(a[1]))
    [] op = "madd" -> Okv([i \in 1..Len(a[1]) |-> a[1][i] + a[2]])
    [] op = "fge" -> Okv(Keep(a[1], a[2], 1))
    [] op = "iname" -> Okv(MapSeq(a[1], "s", 1))
    [] op = "inum" -> Okv(MapSeq(a[1], "n", 1))
    [] op = "isnull" -> Okv(a[1].t = "nil")
    [] op = "notnull" -> Okv(a[1].t # "nil")

(* (selecting a message field that is not set yields the empty message) *)
Eval(e, env) ==
  CASE e.k = "lit" -> Okv(e.v)
    [] e.k = "var" -> Okv(env[e.n])
    [] e.k = "sel" ->
         LET a == Eval(e.e, env)
         IN IF ~a.o THEN Bad
            ELSE IF a.v.t = "nil" THEN Okv(e.z)
            ELSE IF e.zm /\ a.v.f[e.f].t = "nil" THEN Okv(e.z) ELSE Okv(a.v.f[e.f])
    [] e.k = "err" -> IF e.f = "code" THEN Okv(env["error"].c)
                      ELSE IF e.f = "message" THEN Okv(env["error"].m)
                      ELSE IF e.f = "details" THEN Okv(Len(env["error"].d))
                      ELSE Okv(OfKind(env["error"].d, e.f, 1))
    [] e.k = "mk" ->
         LET fs == EvalAll([i \in 1..Len(e.f) |-> e.f[i].e], env, 1)
         IN IF ~fs.o THEN Bad
            ELSE Okv([t |-> "msg",
                      f |-> [n \in DOMAIN e.d |->
                               IF \E i \in 1..Len(e.f) : e.f[i].n = n
                               THEN fs.v[CHOOSE i \in 1..Len(e.f) : e.f[i].n = n]
                               ELSE e.d[n]]])
    [] e.k = "op" ->
         CASE e.op = "and" ->
                LET a == Eval(e.a[1], env)
                    b == Eval(e.a[2], env)
                IN IF a.o /\ ~a.v THEN Okv(FALSE)
                   ELSE IF b.o /\ ~b.v THEN Okv(FALSE)
                   ELSE IF a.o /\ b.o THEN Okv(TRUE) ELSE Bad
           [] e.op = "or" ->
                LET a == Eval(e.a[1], env)
                    b == Eval(e.a[2], env)
                IN IF a.o /\ a.v THEN Okv(TRUE)
                   ELSE IF b.o /\ b.v THEN Okv(TRUE)
                   ELSE IF a.o /\ b.o THEN Okv(FALSE) ELSE Bad
           [] e.op = "tern" ->
                LET c == Eval(e.a[1], env)
                IN IF ~c.o THEN Bad ELSE IF c.v THEN Eval(e.a[2], env) ELSE Eval(e.a[3], env)
           [] OTHER ->
                LET a == EvalAll(e.a, env, 1)
                IN IF a.o THEN Strict(e.op, a.v) ELSE Bad

--------------------------------------------------------------------------------
(* Errors: [k, c, m, d, lv]; kind st (a gRPC status), plain (any other error), panic, cel (an   *)
(* expression failed; the text is not specified). m = "*" matches every message.                *)

Err(k, c, m, d, lv) == [k |-> k, c |-> c, m |-> m, d |-> d, lv |-> lv]
CelErr == Err("cel", 0, "*", <<>>, "ERROR")
ErrOf(o) == CASE o.o = "err" -> Err("st", o.c, o.m, o.d, "ERROR")
              [] o.o = "plain" -> Err("plain", 0, o.m, <<>>, "ERROR")
              [] o.o = "panic" -> Err("panic", 0, o.m, <<>>, "ERROR")
              [] o.o = "gone" -> Err("st", o.c, o.m, <<>>, "ERROR")
(* what the `error` variable and the defaults of an error block see *)
View(e) == CASE e.k = "st" -> e
             [] e.k = "plain" -> Err("st", 2, e.m, <<>>, "ERROR")
             [] e.k = "panic" -> Err("st", 2, "recovered error: " \o e.m, <<>>, "ERROR")
             [] e.k = "cel" -> Err("st", 2, "*", <<>>, "ERROR")

(* failures of a validation's own definitions and expressions are Internal; a panic may instead    *)
(* be reported as such                                                                          *)
Internal == Err("st", 13, "*", <<>>, "ERROR")
InValidation(e) == CASE e.k \in {"st", "dup"} -> {e}
                     [] e.k = "panic" -> {e, Internal}
                     [] OTHER -> {Internal}

(* does an observed error (k, c, m, d) match the specified one? *)
Matches(e, ob) ==
  CASE e.k = "cel" -> ob.k = "plain"
    [] OTHER -> e.k = ob.k /\ (e.m = "*" \/ e.m = ob.m) /\ (e.k = "st" => e.c = ob.c /\ e.d = ob.d)

--------------------------------------------------------------------------------
(* Results of evaluating something:                                                             *)
(*   st  ok | wait | err        v  the value when ok                                             *)
(*   fl  the calls enabled (and not completed): set of <<k, i, site, to, req>>                     *)
(*   er  the failures (set of errors)                                                           *)
(*   hf  failed calls whose failure has been handled: set of [k, site, e] as passed to the       *)
(*       ErrorHandler                                                                           *)

Res(st, v, fl, er, hf) == [st |-> st, v |-> v, fl |-> fl, er |-> er, hf |-> hf]
ROk(v) == Res("ok", v, {}, {}, {})
RErr(e) == Res("err", 0, {}, {e}, {})
AddHf(r, hf) == [r EXCEPT !.hf = @ \cup hf]

Attempts(C, key) == IF Has(C.done, key) THEN C.done[key] ELSE <<>>
Flying(C, fl) == \E f \in fl : <<f[1], f[2]>> \in C.fly

(* Calls of different elements are told apart by the element, so programs whose maps run over    *)
(* lists with equal elements are left out (outcome "dup").                                       *)
ElemKey(x, kind) == IF kind = "item" THEN (IF x.t = "nil" THEN 0 ELSE x.f.n) ELSE x
Dup(src, kind) == \E i, j \in 1..Len(src) : i < j /\ ElemKey(src[i], kind) = ElemKey(src[j], kind)

RECURSIVE EvalDefs(_, _, _), DefsFrom(_, _, _, _, _), EvalDef(_, _, _), EvalArgs(_, _, _, _),
          Attempt(_, _, _, _, _, _), Blocks(_, _, _, _, _, _), Details(_, _, _, _, _),
          MapFrom(_, _, _, _, _, _), EvalMsg(_, _, _), Fields(_, _, _, _, _, _),
          DetMsgs(_, _, _, _, _), Detail(_, _, _)

(* A list of definitions. A definition depends on the earlier definitions it mentions and on all *)
(* earlier validations; those that do not depend on each other are evaluated concurrently.       *)
EvalDefs(C, defs, env) ==
  LET r == DefsFrom(C, defs, 1, env, [n \in {} |-> ""])
  IN IF r.er # {} THEN [r EXCEPT !.st = IF Flying(C, r.fl) THEN "drain" ELSE "err"] ELSE r

Deps(defs, i) == {j \in 1..(i - 1) : defs[j].kind = "validation" \/ defs[j].name \in Range(defs[i].refs)}

(* status: index -> ok | wait | err;  the value of the result is the extended environment *)
DefsFrom(C, defs, i, env, status) ==
  IF i > Len(defs) THEN Res(IF \A j \in DOMAIN status : status[j] = "ok" THEN "ok" ELSE "wait", env, {}, {}, {})
  ELSE
    LET deps == Deps(defs, i)
        ready == \A j \in deps : status[j] = "ok"
        r == IF ready THEN EvalDef(C, defs[i], env) ELSE Res("wait", 0, {}, {}, {})
        env2 == IF r.st = "ok" /\ defs[i].kind # "validation" THEN (defs[i].name :> r.v) @@ env ELSE env
        rest == DefsFrom(C, defs, i + 1, env2, (i :> r.st) @@ status)
    IN Res(rest.st, rest.v, r.fl \cup rest.fl, r.er \cup rest.er, r.hf \cup rest.hf)

EvalDef(C, d, env) ==
  LET c == IF IsNone(d.if) THEN Okv(TRUE) ELSE Eval(d.if, env)
  IN IF ~c.o THEN RErr(CelErr)
     ELSE IF ~c.v THEN ROk(d.zero)
     ELSE CASE d.kind \in {"by", "enum"} ->
                 LET v == Eval(d.by, env) IN IF v.o THEN ROk(v.v) ELSE RErr(CelErr)
            [] d.kind = "message" ->
                 LET a == EvalArgs(d.msg.args, 1, env, [n \in {} |-> 0])
                 IN IF ~a.o THEN RErr(CelErr) ELSE EvalMsg(C, d.msg.name, a.v)
            [] d.kind = "map" ->
                 IF d.map.k = "msg" /\ Dup(env[d.map.src], d.map.it)
                 THEN RErr(Err("dup", 0, "*", <<>>, "ERROR"))
                 ELSE MapFrom(C, d, env, env[d.map.src], 1, <<>>)
            [] d.kind = "call" ->
                 LET a == EvalArgs(d.req, 1, env, [n \in {} |-> 0])
                 IN IF ~a.o THEN RErr(CelErr)
                    ELSE LET req == [n \in DOMAIN C.p.req |-> IF Has(a.v, "$" \o n) THEN a.v["$" \o n] ELSE C.p.req[n]]
                         IN Attempt(C, d, env, req["id"], [t |-> "msg", f |-> req], 1)
            [] d.kind = "validation" ->
                 LET ds == EvalDefs(C, d.val.defs, env)
                 IN IF ds.st # "ok" THEN [ds EXCEPT !.er = UNION {InValidation(e) : e \in @}]
                    ELSE LET cc == Eval(d.val.if, ds.v)
                         IN IF ~cc.o THEN AddHf(RErr(Err("st", 13, "*", <<>>, "ERROR")), ds.hf)
                            ELSE IF ~cc.v THEN AddHf(ROk(TRUE), ds.hf)
                            ELSE LET m == IF IsNone(d.val.msg) THEN Okv("error") ELSE Eval(d.val.msg, ds.v)
                                     dt == Details(C, d.val.det, ds.v, 1, <<>>)
                                 IN IF ~m.o THEN AddHf(RErr(Err("st", 13, "*", <<>>, "ERROR")), ds.hf)
                                    ELSE IF dt.st # "ok"
                                    THEN [AddHf(dt, ds.hf) EXCEPT !.er = UNION {InValidation(e) : e \in @}]
                                    ELSE AddHf(RErr(Err("st", d.val.code, m.v, dt.v, d.val.log)), ds.hf \cup dt.hf)

(* request fields and message arguments, as a function from "$name" *)
EvalArgs(as, i, env, acc) ==
  IF i > Len(as) THEN Okv(acc)
  ELSE LET a == as[i]
           c == IF IsNone(a.if) THEN Okv(TRUE) ELSE Eval(a.if, env)
       IN IF ~c.o THEN Bad
          ELSE IF ~c.v THEN EvalArgs(as, i + 1, env, acc)
          ELSE LET v == Eval(a.by, env)
               IN IF ~v.o THEN Bad
                  ELSE IF a.inline
                  THEN LET flds == IF v.v.t = "nil" THEN a.z ELSE v.v.f
                       IN EvalArgs(as, i + 1, env, [n \in {"$" \o x : x \in DOMAIN flds} |-> flds[CHOOSE x \in DOMAIN flds : "$" \o x = n]] @@ acc)
                  ELSE EvalArgs(as, i + 1, env, ("$" \o a.f :> v.v) @@ acc)

(* map: one element at a time, in order, stopping at the first failure *)
MapFrom(C, d, env, src, i, acc) ==
  IF i > Len(src) THEN ROk(acc)
  ELSE LET env2 == (d.map.iter :> src[i]) @@ env
           r == IF d.map.k = "by"
                THEN LET v == Eval(d.map.by, env2) IN IF v.o THEN ROk(v.v) ELSE RErr(CelErr)
                ELSE LET a == EvalArgs(d.map.msg.args, 1, env2, [n \in {} |-> 0])
                     IN IF ~a.o THEN RErr(CelErr) ELSE EvalMsg(C, d.map.msg.name, a.v)
       IN IF r.st = "ok" THEN AddHf(MapFrom(C, d, env, src, i + 1, acc \o <<r.v>>), r.hf)
          ELSE r

(* the calls of a definition: attempts of the retry policy, then the error blocks *)
Attempt(C, d, env, key, req, i) ==
  LET os == Attempts(C, key)
      item == <<key, i, d.site, d.timeout, req>>
  IN IF Len(os) < i THEN Res("wait", 0, {item}, {}, {})
     ELSE LET o == os[i]
          IN CASE o.o = "ok" -> ROk(o.v)
               [] o.o = "panic" /\ d.timeout = 0 -> RErr(ErrOf(o))
               [] o.o = "panic" /\ d.timeout > 0 -> Blocks(C, d, env, ErrOf(o), 1, key)
               [] o.o = "expired" ->
                    Blocks(C, d, env, Err("st", 4, "context deadline exceeded",
                           <<<<"info", "[be.Backend/" \o d.site \o "," \o d.tostr \o "]">>>>, "ERROR"), 1, key)
               [] o.o = "gaveup" -> Blocks(C, d, env, o.e, 1, key)
               [] OTHER ->
                    LET e == ErrOf(o)
                        c == IF ~d.retry.on THEN Okv(FALSE)
                             ELSE IF IsNone(d.retry.if) THEN Okv(TRUE)
                             ELSE Eval(d.retry.if, ("error" :> View(e)) @@ env)
                    IN IF ~c.o THEN Blocks(C, d, env, CelErr, 1, key)
                       ELSE IF c.v /\ (d.retry.max = 0 \/ i <= d.retry.max) THEN Attempt(C, d, env, key, req, i + 1)
                       ELSE Blocks(C, d, env, e, 1, key)

(* the error (as decided by the blocks) goes through the ErrorHandler *)
Handled(C, d, e, key) ==
  LET h == {[k |-> key, site |-> d.site, e |-> e]}
      mode == IF Has(C.eh, d.site) THEN C.eh[d.site] ELSE "id"
  IN CASE mode = "id" -> AddHf(RErr(View(e)), h)
       [] mode = "nil" -> AddHf(ROk(NilMsg), h)
       [] mode = "wrap" -> AddHf(RErr(Err("st", 10, IF e.m = "*" THEN "*" ELSE "EH:" \o View(e).m, <<>>, e.lv)), h)

Blocks(C, d, env, err, i, key) ==
  IF i > Len(d.errors) THEN Handled(C, d, err, key)
  ELSE
    LET b == d.errors[i]
        env1 == ("error" :> View(err)) @@ env
        ds == EvalDefs(C, b.defs, env1)
    IN CASE ds.st \in {"wait", "drain"} -> [ds EXCEPT !.st = "wait", !.er = {}]
         [] ds.st = "err" -> AddHf([Handled(C, d, err, key) EXCEPT !.fl = @ \cup ds.fl], ds.hf)
         [] OTHER ->
              LET c == IF IsNone(b.if) THEN Okv(TRUE) ELSE Eval(b.if, ds.v)
              IN IF ~c.o THEN AddHf(Handled(C, d, err, key), ds.hf)
                 ELSE IF ~c.v THEN AddHf(Blocks(C, d, ds.v, err, i + 1, key), ds.hf)
                 ELSE IF b.ignore THEN AddHf(ROk(NilMsg), ds.hf)
                 ELSE IF ~IsNone(b.ignresp)
                 THEN LET v == Eval(b.ignresp, ds.v) IN AddHf(ROk(IF v.o THEN v.v ELSE NilMsg), ds.hf)
                 ELSE LET e0 == View(err)
                          m == IF IsNone(b.msg) THEN Okv(IF e0.m = "" THEN "error" ELSE e0.m) ELSE Eval(b.msg, ds.v)
                          dt == Details(C, b.det, ds.v, 1, <<>>)
                      IN IF ~m.o THEN AddHf(Handled(C, d, err, key), ds.hf)
                         ELSE CASE dt.st \in {"wait", "drain"} -> [AddHf(dt, ds.hf) EXCEPT !.st = "wait", !.er = {}]
                                [] dt.st = "err" -> AddHf([Handled(C, d, err, key) EXCEPT !.fl = @ \cup dt.fl], ds.hf \cup dt.hf)
                                [] OTHER ->
                                     AddHf(Handled(C, d,
                                             Err("st", IF b.code >= 0 THEN b.code ELSE e0.c, m.v,
                                                 IF b.det = <<>> THEN e0.d ELSE dt.v, b.log), key),
                                           ds.hf \cup dt.hf)

(* error details: the value is a sequence of pairs of kind and text. Parts that cannot be evaluated are left out. *)
RECURSIVE BadParts(_, _, _), PreParts(_, _, _), LocParts(_, _, _), ByParts(_, _, _)
BadParts(xs, env, i) ==
  IF i > Len(xs) THEN <<>>
  ELSE LET a == EvalAll(xs[i], env, 1)
       IN (IF a.o THEN <<<<"bad", a.v[1] \o "=" \o a.v[2] \o ";">>>> ELSE <<>>) \o BadParts(xs, env, i + 1)
PreParts(xs, env, i) ==
  IF i > Len(xs) THEN <<>>
  ELSE LET a == EvalAll(xs[i], env, 1)
       IN (IF a.o THEN <<<<"pre", a.v[1] \o "," \o a.v[2] \o "=" \o a.v[3] \o ";">>>> ELSE <<>>) \o PreParts(xs, env, i + 1)
LocParts(xs, env, i) ==
  IF i > Len(xs) THEN <<>>
  ELSE LET a == Eval(xs[i], env)
       IN (IF a.o THEN <<<<"loc", a.v>>>> ELSE <<>>) \o LocParts(xs, env, i + 1)
ByParts(xs, env, i) ==
  IF i > Len(xs) THEN <<>>
  ELSE LET a == Eval(xs[i], env)
       IN (IF a.o THEN <<<<"Item", ToString(a.v.f["n"]) \o ":" \o a.v.f["s"]>>>> ELSE <<>>) \o ByParts(xs, env, i + 1)

DetMsgs(C, ms, env, i, acc) ==
  IF i > Len(ms) THEN ROk(acc)
  ELSE LET a == EvalArgs(ms[i].args, 1, env, [n \in {} |-> 0])
       IN IF ~a.o THEN RErr(CelErr)
          ELSE LET r == EvalMsg(C, ms[i].name, a.v)
               IN IF r.st # "ok" THEN r
                  ELSE AddHf(DetMsgs(C, ms, env, i + 1, acc \o <<<<ms[i].name, ToString(r.v.f["n"]) \o ":" \o r.v.f["s"]>>>>), r.hf)

Detail(C, d, env) ==
  LET ds == EvalDefs(C, d.defs, env)
  IN IF ds.st # "ok" THEN ds
     ELSE LET c == IF IsNone(d.if) THEN Okv(TRUE) ELSE Eval(d.if, ds.v)
          IN IF ~c.o THEN AddHf(RErr(CelErr), ds.hf)
             ELSE IF ~c.v THEN AddHf(ROk(<<>>), ds.hf)
             ELSE LET ms == DetMsgs(C, d.msgs, ds.v, 1, <<>>)
                  IN IF ms.st # "ok" THEN AddHf(ms, ds.hf)
                     ELSE AddHf(ROk(ms.v \o ByParts(d.by, ds.v, 1) \o PreParts(d.pre, ds.v, 1)
                                    \o BadParts(d.bad, ds.v, 1) \o LocParts(d.loc, ds.v, 1)), ds.hf \cup ms.hf)

Details(C, dets, env, i, acc) ==
  IF i > Len(dets) THEN ROk(acc)
  ELSE LET r == Detail(C, dets[i], env)
       IN IF r.st # "ok" THEN r ELSE AddHf(Details(C, dets, env, i + 1, acc \o r.v), r.hf)

(* a custom resolver is a call as well *)
CustomCall(C, key, site, req) ==
  LET os == Attempts(C, key)
  IN IF os = <<>> THEN Res("wait", 0, {<<key, 1, site, 0, req>>}, {}, {})
     ELSE IF os[1].o = "ok" THEN ROk(os[1].v) ELSE RErr(ErrOf(os[1]))

StripArg(env, m) ==     \* what custom resolvers receive: arguments and variables
  [n \in Range(m.args) \cup Range(m.vars) |->
     IF Has(env, "$" \o n) THEN env["$" \o n] ELSE IF Has(env, n) THEN env[n] ELSE m.zero[n]]

EvalMsg(C, name, args) ==
  LET m == C.p.msgs[name]
      env0 == [n \in {"$" \o a : a \in Range(m.args)} |-> IF Has(args, n) THEN args[n] ELSE m.zero["" \o (CHOOSE a \in Range(m.args) : "$" \o a = n)]]
      ds == EvalDefs(C, m.defs, env0)
  IN IF ds.st = "drain" THEN [ds EXCEPT !.st = "wait"]
     ELSE IF ds.st # "ok" THEN ds
     ELSE IF m.custom
     THEN LET rec == StripArg(ds.v, m)
              cm == CustomCall(C, env0["$pid"] \o "#M", "M:" \o name, [t |-> "arg", f |-> rec])
          IN IF cm.st # "ok" THEN AddHf(cm, ds.hf)
             ELSE AddHf(Fields(C, m, name, ds.v, 1, cm.v.f), ds.hf)
     ELSE AddHf(Fields(C, m, name, ds.v, 1, m.fz), ds.hf)

(* fields, in declaration order; acc is the message built so far *)
Fields(C, m, name, env, i, acc) ==
  IF i > Len(m.fields) THEN ROk([t |-> "msg", f |-> acc])
  ELSE
    LET f == m.fields[i]
    IN CASE f.mode = "none" -> Fields(C, m, name, env, i + 1, acc)
         [] f.mode = "by" ->
              LET v == Eval(f.by, env)
              IN IF v.o THEN Fields(C, m, name, env, i + 1, [acc EXCEPT ![f.n] = v.v]) ELSE RErr(CelErr)
         [] f.mode = "auto" ->
              LET v == env[f.of]
              IN Fields(C, m, name, env, i + 1, [acc EXCEPT ![f.n] = IF v.t = "nil" THEN f.z ELSE v.f[f.n]])
         [] f.mode = "custom" ->
              LET rec == StripArg(env, m)
                  r == CustomCall(C, env["$pid"] \o "#" \o f.n, "F:" \o name \o "." \o f.n,
                         [t |-> "arg", f |-> rec, m |-> IF m.custom THEN [t |-> "msg", f |-> acc] ELSE NilMsg])
              IN IF r.st = "ok" THEN Fields(C, m, name, env, i + 1, [acc EXCEPT ![f.n] = r.v]) ELSE r
         [] f.mode = "oneof" ->
              LET last == CHOOSE j \in i..Len(m.fields) :
                            /\ \A x \in i..j : m.fields[x].og = f.og
                            /\ (j = Len(m.fields) \/ m.fields[j + 1].og # f.og)
                  conds == [x \in i..last |-> IF m.fields[x].dflt THEN Okv(FALSE) ELSE Eval(m.fields[x].if, env)]
              IN IF \E x \in i..last : ~conds[x].o THEN RErr(CelErr)
                 ELSE LET yes == {x \in i..last : conds[x].v}
                          dfl == {x \in i..last : m.fields[x].dflt}
                          pick == IF yes # {} THEN {CHOOSE x \in yes : \A y \in yes : x <= y} ELSE dfl
                      IN IF pick = {} THEN Fields(C, m, name, env, last + 1, acc)
                         ELSE LET g == m.fields[CHOOSE x \in pick : TRUE]
                                  ds == EvalDefs(C, g.defs, env)
                              IN IF ds.st # "ok" THEN (IF ds.st = "drain" THEN [ds EXCEPT !.st = "wait"] ELSE ds)
                                 ELSE LET v == Eval(g.by, ds.v)
                                      IN IF ~v.o THEN AddHf(RErr(CelErr), ds.hf)
                                         ELSE AddHf(Fields(C, m, name, env, last + 1,
                                                [acc EXCEPT ![g.n] = v.v, !["@" \o g.og] = g.n]), ds.hf)

(* the whole request *)
Result(C, args) == EvalMsg(C, C.p.root, args)
================================================================================
