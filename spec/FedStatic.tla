----------------------------- MODULE FedStatic -----------------------------
(* Which schemas are well-formed: scopes and types of the definitions of federation messages.                            *)
(* A schema S is a syntax tree. Its expressions are holes [i, d] (number and default expression) and some of its names    *)
(* are holes too; a case C = [k, i, x] replaces the content of one hole, so that one tree gives many schemas.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bad == [l |-> FALSE, b |-> "bad"]
T(b) == [l |-> FALSE, b |-> b]
L(b) == [l |-> TRUE, b |-> b]
Numbers == {"int", "uint", "double"}
Fields(S, b) == IF b \in DOMAIN S.types THEN S.types[b] ELSE << >>
IsMsg(S, t) == ~t.l /\ t.b \in DOMAIN S.types
HasField(S, b, f) == b \in DOMAIN S.types /\ f \in DOMAIN S.types[b]

\* an enum read from a field is a number in expressions ("enumf"), an enum variable is not ("enum")
Enums == {"enum", "enumf"}
VarTy(t) == IF t.b = "enumf" THEN [t EXCEPT !.b = "enum"] ELSE t
FieldTy(t) == IF t.b = "enum" THEN [t EXCEPT !.b = "enumf"] ELSE t
IsEnum(t) == ~t.l /\ t.b \in Enums

\* a value of type `from` may be bound to a field of type `to`
Bindable(S, from, to) ==
  /\ from # Bad
  /\ from.l = to.l
  /\ \/ VarTy(from) = VarTy(to)
     \/ from.b \in Numbers /\ to.b \in Numbers
     \/ from.b \in Enums /\ to.b \in Numbers

\* a value of type `from` may be sent in a request field of type `to`
Sendable(S, from, to) == Bindable(S, from, to) \/ (~from.l /\ from.b \in Numbers /\ IsEnum(to))

\* ---- expressions ----
RECURSIVE Ty(_, _, _), AllTy(_, _, _)
AllTy(S, es, env) == [j \in 1 .. Len(es) |-> Ty(S, es[j], env)]
IsInt(t) == t = T("int") \/ t = T("enumf")
Add(a, b) == CASE IsInt(a) /\ IsInt(b) -> T("int")
               [] a = T("str") /\ b = T("str") -> a
               [] a.l /\ a = b -> a
               [] OTHER -> Bad
Ordered(a, b) == (IsInt(a) /\ IsInt(b)) \/ (a = b /\ a \in {T("str"), T("bool")})
Elem(t) == T(t.b)
OpTy(S, o, a) ==
  LET n == Len(a)
      is(b) == \A j \in 1 .. n : a[j] = T(b)
  IN
  CASE \E j \in 1 .. n : a[j] = Bad -> Bad
    [] o \in {"and", "or", "not"} -> IF is("bool") THEN T("bool") ELSE Bad
    [] o \in {"eq", "ne", "isnull", "notnull"} -> T("bool")
    [] o \in {"lt", "ge"} -> IF Ordered(a[1], a[2]) THEN T("bool") ELSE Bad
    [] o \in {"+", "cat", "catl"} -> Add(a[1], a[2])
    [] o = "tern" -> IF a[1] = T("bool") /\ a[2] = a[3] THEN a[2] ELSE IF a[1] = T("bool") /\ IsInt(a[2]) /\ IsInt(a[3]) THEN T("int") ELSE Bad
    [] o = "size" -> IF a[1].l \/ a[1] = T("str") THEN T("int") ELSE Bad
    [] o = "idx" -> IF a[1].l /\ IsInt(a[2]) THEN Elem(a[1]) ELSE Bad
    [] o = "list" -> IF n > 0 /\ \A j \in 1 .. n : IsInt(a[j]) THEN L(IF is("enumf") THEN "enumf" ELSE "int")
                     ELSE IF n > 0 /\ ~a[1].l /\ \A j \in 1 .. n : a[j] = a[1] THEN L(a[1].b) ELSE Bad
    [] o = "wrap" -> T("int")      \* size([x]) of any x
    [] o = "tostr" -> IF IsInt(a[1]) \/ a[1] \in {T("bool"), T("str")} THEN T("str") ELSE Bad
    [] o = "madd" -> IF ~a[1].l \/ a[2].l THEN Bad ELSE LET e == Add(Elem(a[1]), a[2]) IN IF e = Bad THEN Bad ELSE L(e.b)
    [] o = "fge" -> IF a[1].l /\ Ordered(Elem(a[1]), a[2]) THEN a[1] ELSE Bad
    [] o \in {"iname", "inum"} ->
         LET f == IF o = "iname" THEN "s" ELSE "n" IN
         IF a[1].l /\ HasField(S, a[1].b, f) /\ ~Fields(S, a[1].b)[f].l THEN L(Fields(S, a[1].b)[f].b) ELSE Bad
ErrTy(f) == CASE f \in {"code", "details"} -> T("int") [] f = "message" -> T("str") [] OTHER -> L("str")
Ty(S, e, env) ==
  CASE e.k = "lit" -> e.t
    [] e.k = "var" -> IF e.n \in DOMAIN env THEN env[e.n] ELSE Bad
    [] e.k = "sel" -> LET t == Ty(S, e.e, env) IN IF IsMsg(S, t) /\ HasField(S, t.b, e.f) THEN Fields(S, t.b)[e.f] ELSE Bad
    [] e.k = "err" -> IF "error" \in DOMAIN env THEN ErrTy(e.f) ELSE Bad
    [] e.k = "mk" -> IF e.n \in DOMAIN S.types /\ \A j \in 1 .. Len(e.f) : HasField(S, e.n, e.f[j].n) /\ Ty(S, e.f[j].e, env) = Fields(S, e.n)[e.f[j].n] THEN T(e.n) ELSE Bad
    [] e.k = "op" -> OpTy(S, e.op, AllTy(S, e.a, env))

\* ---- holes ----
Ex(S, h) == IF S.c.k = "expr" /\ S.c.i = h.i THEN S.c.x ELSE h.d
Nm(S, h) == IF S.c.k = "name" /\ S.c.i = h.i THEN S.c.x ELSE h.d
None(e) == e.k = "none"
TyH(S, h, env) == Ty(S, Ex(S, h), env)
Is(S, h, env, t) == None(Ex(S, h)) \/ TyH(S, h, env) = t
Bool(S, h, env) == Is(S, h, env, T("bool"))
Str(S, h, env) == Is(S, h, env, T("str"))

\* ---- definitions ----
\* st: ok so far; env: names in scope; uses: messages used, with the types of the arguments; names: names declared in the message
And(st, b) == IF b THEN st ELSE [st EXCEPT !.ok = FALSE]
\* the scope ends
Leave(st, env) == [st EXCEPT !.env = env]

\* the arguments of a use: those given by name, and those given inline
ArgSet(S, args, env, inline) ==
  LET one(j) == LET a == args[j] t == TyH(S, a.by, env) IN
                CASE a.inline # inline -> << >>
                  [] inline -> IF IsMsg(S, t) THEN [f \in DOMAIN Fields(S, t.b) \ {"-"} |-> Fields(S, t.b)[f]] ELSE << >>
                  [] OTHER -> (Nm(S, a.f) :> FieldTy(t))
      RECURSIVE all(_)
      all(j) == IF j > Len(args) THEN << >> ELSE all(j + 1) @@ one(j)
  IN all(1)

Use(S, m, u, st) ==
  LET name == Nm(S, u.name)
      typed == \A j \in 1 .. Len(u.args) : LET t == TyH(S, u.args[j].by, st.env) IN t # Bad /\ (u.args[j].inline => IsMsg(S, t))
  IN IF name \notin DOMAIN S.msgs \/ name = m \/ ~typed THEN [st EXCEPT !.ok = FALSE]
     ELSE [st EXCEPT !.uses = Append(@, [m |-> name, named |-> ArgSet(S, u.args, st.env, FALSE), args |-> ArgSet(S, u.args, st.env, FALSE) @@ ArgSet(S, u.args, st.env, TRUE)])]

ReservedNames == {"error"}
ValidName(n) == n \notin ReservedNames /\ n \notin {"9x", "_x", "a-b"}  \* the invalid names the cases contain

RECURSIVE Defs(_, _, _, _), Def(_, _, _, _), Blocks(_, _, _, _, _), Details(_, _, _, _), Uses(_, _, _, _)
Defs(S, m, ds, st) == IF ds = << >> THEN st ELSE Defs(S, m, Tail(ds), Def(S, m, ds[1], st))
Uses(S, m, us, st) == IF us = << >> THEN st ELSE Uses(S, m, Tail(us), Use(S, m, us[1], st))
Details(S, m, dets, st) ==
  IF dets = << >> THEN st
  ELSE LET d == dets[1]
           a == Defs(S, m, d.defs, st)
           b == And(a, /\ Bool(S, d.if, a.env)
                       /\ \A j \in 1 .. Len(d.by) : IsMsg(S, TyH(S, d.by[j], a.env))
                       /\ \A j \in 1 .. Len(d.str) : Str(S, d.str[j], a.env))
           c == Uses(S, m, d.msgs, b)
       IN Details(S, m, Tail(dets), Leave(c, st.env))
\* resp: the type of the call's response, or Bad for a validation
Blocks(S, m, bs, st, resp) ==
  IF bs = << >> THEN st
  ELSE LET b == bs[1]
           a == Defs(S, m, b.defs, st)
           c == And(a, /\ Bool(S, b.if, a.env)
                       /\ Str(S, b.msg, a.env)
                       /\ IF resp = Bad THEN TRUE ELSE Is(S, b.ign, a.env, resp))
           d == Details(S, m, b.det, c)
       IN Blocks(S, m, Tail(bs), Leave(d, st.env), resp)

Bind(env, n, t) == (n :> VarTy(t)) @@ env

Def(S, m, d, st0) ==
  LET name == Nm(S, d.name)
      env == st0.env
      st == And(st0, Bool(S, d.if, env) /\ (name = "" \/ (ValidName(name) /\ name \notin st0.names)))
      done(s, t) == \* the definition's variable is visible to what follows
         [s EXCEPT !.env = IF name = "" THEN env ELSE Bind(env, name, t),
                   !.names = IF name = "" THEN @ ELSE @ \cup {name},
                   !.ok = @ /\ t # Bad]
      named == [st EXCEPT !.names = IF name = "" THEN @ ELSE @ \cup {name}]
  IN
  CASE d.kind = "by" -> done(st, TyH(S, d.by, env))
    [] d.kind = "enum" -> done(And(st, IsEnum(TyH(S, d.by, env))), T("enum"))
    [] d.kind = "message" -> done(Use(S, m, d.msg, st), T(Nm(S, d.msg.name)))
    [] d.kind = "validation" -> done(Leave(Blocks(S, m, << d.val >>, named, Bad), env), T("bool"))
    [] d.kind = "call" ->
         LET reqOk == \A j \in 1 .. Len(d.req) : LET r == d.req[j] f == Nm(S, r.f) IN
                        /\ HasField(S, "be.Req", f)
                        /\ Sendable(S, TyH(S, r.by, env), Fields(S, "be.Req")[f])
                        /\ Bool(S, r.if, env)
             e2 == Bind(env, "error", T("error"))
             a == And(named, reqOk /\ Bool(S, d.retry, e2))
         IN done(Blocks(S, m, d.errors, [a EXCEPT !.env = e2], T("be.Res")), T("be.Res"))
    [] d.kind = "map" ->
         LET src == Nm(S, d.map.src)
             listed == src \in DOMAIN env /\ env[src].l
             e2 == Bind(env, d.map.iter, T(env[src].b))
         IN IF ~listed THEN done([st EXCEPT !.ok = FALSE], Bad)
            ELSE IF d.map.k = "msg" THEN done(Use(S, m, d.map.msg, [st EXCEPT !.env = e2]), L(Nm(S, d.map.msg.name)))
            ELSE LET t == TyH(S, d.map.by, e2)
                 IN done(And(st, (d.map.k = "enum" => IsEnum(t)) /\ t # Bad /\ ~t.l), L(IF d.map.k = "enum" THEN "enum" ELSE t.b))

\* ---- fields ----
\* the fields of message definitions that are bound automatically
Autos(S, M, env, f) == {j \in 1 .. Len(M.defs) : M.defs[j].auto /\ LET n == Nm(S, M.defs[j].name) IN
                         n \in DOMAIN env /\ IsMsg(S, env[n]) /\ HasField(S, env[n].b, f)}
RECURSIVE FieldsOk(_, _, _, _, _)
FieldsOk(S, m, M, j, st) ==
  IF j > Len(M.fields) THEN st
  ELSE LET f == M.fields[j]
           mode == Nm(S, f.mode)
           env == st.env
           r == CASE mode = "by" -> And(st, Bindable(S, TyH(S, f.by, env), f.ty))
                  [] mode = "custom" -> st
                  [] mode = "oneof" ->
                       LET a == And(st, Bool(S, f.if, env))
                           b == Defs(S, m, f.defs, a)
                           c == And(b, Bindable(S, TyH(S, f.by, b.env), f.ty))
                       IN Leave(c, env)
                  [] mode = "default" ->
                       LET b == Defs(S, m, f.defs, st)
                           c == And(b, /\ Bindable(S, TyH(S, f.by, b.env), f.ty)
                                       /\ \A g \in 1 .. Len(M.fields) : g # j => ~(M.fields[g].og = f.og /\ Nm(S, M.fields[g].mode) = "default"))
                       IN Leave(c, env)
                  [] mode \in {"auto", "none"} ->
                       And(st, \/ M.custom
                               \/ LET as == Autos(S, M, env, f.n) IN
                                  /\ Cardinality(as) = 1
                                  /\ \A k \in as : Bindable(S, Fields(S, env[Nm(S, M.defs[k].name)].b)[f.n], f.ty))
       IN FieldsOk(S, m, M, j + 1, r)

\* ---- messages ----
\* the type of an argument is that of its first use
SameType(first, t) == \/ VarTy(first) = VarTy(t)
                      \/ ~first.l /\ ~t.l /\ first.b \in Numbers \cup Enums /\ t.b \in Numbers
\* an argument that is given by name somewhere is given everywhere
Agree(S, mine, args) ==
  /\ \A j, k \in 1 .. Len(mine) : DOMAIN mine[j].named \subseteq DOMAIN mine[k].args
  /\ \A j \in 1 .. Len(mine) : \A n \in DOMAIN mine[j].args : SameType(args[n], mine[j].args[n])
RECURSIVE AllArgs(_)
AllArgs(us) == IF us = << >> THEN << >> ELSE us[1].args @@ AllArgs(Tail(us))
RECURSIVE Msgs(_, _, _)
\* the messages are ordered so that a message comes after those which use it
Msgs(S, order, st) ==
  IF order = << >> \/ ~st.ok THEN st.ok
  ELSE LET m == order[1]
           M == S.msgs[m]
           mine == SelectSeq(st.uses, LAMBDA u : u.m = m)
           args == IF m = S.root THEN S.rootargs ELSE AllArgs(mine)
           agree == Agree(S, mine, args)
           env == [n \in {"$" \o a : a \in DOMAIN args} |-> args[CHOOSE a \in DOMAIN args : "$" \o a = n]]
           a == Defs(S, m, M.defs, [ok |-> st.ok /\ agree, env |-> env, uses |-> st.uses, names |-> {}])
           b == FieldsOk(S, m, M, 1, a)
       IN Msgs(S, Tail(order), [ok |-> b.ok, uses |-> b.uses])
WellFormed(S) == Msgs(S, S.order, [ok |-> TRUE, uses |-> << >>])
=============================================================================
