---------------------------- MODULE StartUp ----------------------------
(* Start-up of a federation service: its environment is loaded from texts, then its service variables are evaluated in  *)
(* declaration order, with the environment and the earlier variables visible. Requests see exactly these values.        *)
(* A value is [s, e, m]: the canonical text of a scalar, the texts of a list, the pairs of a map.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(t, i) == SubSeq(t, i, i)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == [c \in {"A", "B", "C", "D", "E", "F"} |-> CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12 [] c = "D" -> 13 [] c = "E" -> 14 [] OTHER -> 15]
DigitVal == [c \in {Digits[i] : i \in 1 .. 16} \cup DOMAIN Upper |-> IF c \in DOMAIN Upper THEN Upper[c] ELSE (CHOOSE i \in 1 .. 16 : Digits[i] = c) - 1]
IsDigit(c, base) == c \in DOMAIN DigitVal /\ DigitVal[c] < base
Blank == {" ", "\t"}

Bad == [ok |-> FALSE, s |-> "", e |-> <<>>, m |-> {}]
Scalar(s) == [ok |-> TRUE, s |-> s, e |-> <<>>, m |-> {}]
List(e) == [ok |-> TRUE, s |-> "", e |-> e, m |-> {}]
Map(m) == [ok |-> TRUE, s |-> "", e |-> <<>>, m |-> m]

RECURSIVE Split(_, _), TrimL(_), AllDigits(_, _), Num(_, _, _), Drop0(_), DropR0(_), Less(_, _)
\* the pieces of t between the separators c
Split(t, c) == IF \E i \in 1 .. Len(t) : Ch(t, i) = c
               THEN LET i == CHOOSE i \in 1 .. Len(t) : Ch(t, i) = c /\ \A j \in 1 .. i - 1 : Ch(t, j) # c
                    IN <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), c)
               ELSE <<t>>
TrimL(t) == IF t # "" /\ Ch(t, 1) \in Blank THEN TrimL(SubSeq(t, 2, Len(t))) ELSE t
AllDigits(t, base) == \A i \in 1 .. Len(t) : IsDigit(Ch(t, i), base)
Num(t, base, n) == IF t = "" THEN n ELSE Num(SubSeq(t, 2, Len(t)), base, n * base + DigitVal[Ch(t, 1)])
Drop0(t) == IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN Drop0(SubSeq(t, 2, Len(t))) ELSE t
DropR0(t) == IF t # "" /\ Ch(t, Len(t)) = "0" THEN DropR0(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* decimal numbers without leading zeros
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE IF a = "" THEN FALSE
              ELSE IF Ch(a, 1) = Ch(b, 1) THEN Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
              ELSE DigitVal[Ch(a, 1)] < DigitVal[Ch(b, 1)]

\* the digits of an unsigned integer in Go's notation: 12, 0x1f, 0b1, 0o7 and 07; decimal digits, "" if it is none
Unsigned(t) ==
  LET p == IF Len(t) >= 2 THEN SubSeq(t, 1, 2) ELSE ""
      base == CASE p \in {"0x", "0X"} -> 16 [] p \in {"0b", "0B"} -> 2 [] p \in {"0o", "0O"} -> 8 [] OTHER -> 0
      rest == SubSeq(t, 3, Len(t))
  IN IF base > 0 THEN (IF rest # "" /\ AllDigits(rest, base) THEN ToString(Num(rest, base, 0)) ELSE "")
     ELSE IF t = "" \/ ~AllDigits(t, 10) THEN ""
     ELSE IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN (IF AllDigits(t, 8) THEN ToString(Num(t, 8, 0)) ELSE "")
     ELSE t

Signed(t) == t # "" /\ Ch(t, 1) \in {"+", "-"}
Body(t) == IF Signed(t) THEN SubSeq(t, 2, Len(t)) ELSE t
Neg(t) == t # "" /\ Ch(t, 1) = "-"
WithSign(t, d) == IF Neg(t) /\ d # "0" THEN "-" \o d ELSE d

ParseInt(t) == LET d == Unsigned(Body(t)) IN
  IF d = "" THEN Bad
  ELSE IF Less(IF Neg(t) THEN "9223372036854775808" ELSE "9223372036854775807", d) THEN Bad
  ELSE Scalar(WithSign(t, d))
ParseUint(t) == LET d == Unsigned(t) IN IF d = "" \/ Less("18446744073709551615", d) THEN Bad ELSE Scalar(d)
ParseBool(t) == IF t \in {"1", "t", "T", "true", "TRUE", "True"} THEN Scalar("true")
                ELSE IF t \in {"0", "f", "F", "false", "FALSE", "False"} THEN Scalar("false") ELSE Bad

\* floating-point numbers with up to 15 digits: digits and the power of ten of the last of them
ParseDouble(t) ==
  LET b == Body(t)
      ex == {i \in 1 .. Len(b) : Ch(b, i) \in {"e", "E"}}
      cut == IF ex = {} THEN Len(b) + 1 ELSE CHOOSE i \in ex : \A j \in ex : i <= j
      mant == SubSeq(b, 1, cut - 1)
      etext == IF ex = {} THEN "0" ELSE SubSeq(b, cut + 1, Len(b))
      parts == Split(mant, ".")
      whole == parts[1]
      frac == IF Len(parts) = 2 THEN parts[2] ELSE ""
      all == whole \o frac
      sig == DropR0(Drop0(all))
      dropped == Len(Drop0(all)) - Len(DropR0(Drop0(all)))
  IN IF \/ Len(parts) > 2 \/ all = "" \/ ~AllDigits(all, 10) \/ Body(etext) = "" \/ ~AllDigits(Body(etext), 10) THEN Bad
     ELSE IF sig = "" THEN Scalar("0")
     ELSE LET e == (IF Neg(etext) THEN 0 - Num(Body(etext), 10, 0) ELSE Num(Body(etext), 10, 0)) - Len(frac) + dropped
          IN Scalar((IF Neg(t) THEN "-" ELSE "") \o sig \o "e" \o ToString(e))

\* durations, in milliseconds
RECURSIVE Units(_, _), Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Units(t, sum) ==
  IF t = "" THEN sum
  ELSE LET n == CHOOSE n \in 0 .. Len(t) : (n = Len(t) \/ ~(IsDigit(Ch(t, n + 1), 10) \/ Ch(t, n + 1) = ".")) /\ \A j \in 1 .. n : IsDigit(Ch(t, j), 10) \/ Ch(t, j) = "."
           u == CHOOSE u \in n .. Len(t) : (u = Len(t) \/ IsDigit(Ch(t, u + 1), 10) \/ Ch(t, u + 1) = ".") /\ \A j \in n + 1 .. u : ~(IsDigit(Ch(t, j), 10) \/ Ch(t, j) = ".")
           parts == Split(SubSeq(t, 1, n), ".")
           frac == IF Len(parts) = 2 THEN parts[2] ELSE ""
           unit == SubSeq(t, n + 1, u)
           ms == CASE unit = "h" -> 3600000 [] unit = "m" -> 60000 [] unit = "s" -> 1000 [] unit = "ms" -> 1 [] OTHER -> 0
       IN IF ms = 0 \/ Len(parts) > 2 \/ parts[1] \o frac = "" THEN 0 - 1
          ELSE Units(SubSeq(t, u + 1, Len(t)), sum + Num(parts[1], 10, 0) * ms + (IF frac = "" THEN 0 ELSE (Num(frac, 10, 0) * ms) \div Pow10(Len(frac))))
ParseDuration(t) == LET b == Body(t) IN
  IF b = "0" THEN Scalar("0") ELSE IF b = "" THEN Bad
  ELSE LET n == Units(b, 0) IN IF n < 0 THEN Bad ELSE Scalar(WithSign(t, ToString(n)))

ParseScalar(k, t) == CASE k = "string" -> Scalar(t) [] k = "bool" -> ParseBool(t) [] k = "int" -> ParseInt(t) [] k = "uint" -> ParseUint(t)
                       [] k = "double" -> ParseDouble(t) [] k = "duration" -> ParseDuration(t)

\* a kind is [c, k]: one, list or map (with string keys) of a scalar kind
Parse(kind, t) ==
  CASE kind.c = "one" -> ParseScalar(kind.k, t)
    [] kind.c = "list" ->
         IF TrimL(t) = "" THEN List(<<>>)
         ELSE LET ps == Split(t, ",") vs == [i \in 1 .. Len(ps) |-> ParseScalar(kind.k, ps[i])]
              IN IF \E i \in 1 .. Len(ps) : ~vs[i].ok THEN Bad ELSE List([i \in 1 .. Len(ps) |-> vs[i].s])
    [] OTHER ->
         IF TrimL(t) = "" THEN Map({})
         ELSE LET ps == Split(t, ",") kv == [i \in 1 .. Len(ps) |-> Split(ps[i], ":")]
              IN IF \E i \in 1 .. Len(ps) : Len(kv[i]) # 2 THEN Bad
                 ELSE LET vs == [i \in 1 .. Len(ps) |-> ParseScalar(kind.k, kv[i][2])]
                      IN IF \E i \in 1 .. Len(ps) : ~vs[i].ok THEN Bad
                         ELSE Map({<<kv[i][1], vs[i].s>> : i \in {i \in 1 .. Len(ps) : \A j \in i + 1 .. Len(ps) : kv[j][1] # kv[i][1]}})

ZeroScalar(k) == CASE k = "string" -> "" [] k = "bool" -> "false" [] k = "msg" -> "" [] OTHER -> "0"
Zero(kind) == IF kind.c = "one" THEN Scalar(ZeroScalar(kind.k)) ELSE IF kind.c = "list" THEN List(<<>>) ELSE Map({})

\* the environment: os is a sequence of [k, t]; a declared variable is [name, key, kind, def, req, ign] with key its upper-case name or its alternate
LoadVar(d, os) ==
  LET set == {i \in 1 .. Len(os) : os[i].k = d.key}
  IN IF d.ign THEN Zero(d.kind)
     ELSE IF set # {} THEN Parse(d.kind, os[CHOOSE i \in set : TRUE].t)
     ELSE IF d.def # "" THEN Parse(d.kind, d.def)
     ELSE IF d.req THEN Bad ELSE Zero(d.kind)
Load(env, os) == [i \in 1 .. Len(env) |-> LoadVar(env[i], os)]
Loaded(vals) == \A i \in 1 .. Len(vals) : vals[i].ok

\* expressions
At(ds, vals, n) == vals[CHOOSE i \in 1 .. Len(vals) : ds[i].name = n]
RECURSIVE Ev(_, _)
\* r = [env, envv, vars, vals, it]
IntOf(v) == IF Neg(v.s) THEN 0 - Num(Body(v.s), 10, 0) ELSE Num(v.s, 10, 0)
Bool(b) == Scalar(IF b THEN "true" ELSE "false")
True(v) == v.ok /\ v.s = "true"
False(v) == v.ok /\ v.s = "false"
Quot(a, b) == LET q == (IF a < 0 THEN 0 - a ELSE a) \div (IF b < 0 THEN 0 - b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q
Ev(e, r) ==
  LET A(i) == Ev(e.a[i], r)
      Strict(f) == IF \A i \in 1 .. Len(e.a) : A(i).ok THEN f ELSE Bad
  IN CASE e.op = "lit" -> Scalar(e.n)
       [] e.op = "env" -> At(r.env, r.envv, e.n)
       [] e.op = "var" -> At(r.vars, r.vals, e.n)
       [] e.op = "iter" -> r.it
       [] e.op = "out" -> Strict(Scalar(A(1).s))
       [] e.op = "eq" -> Strict(Bool(A(1) = A(2)))
       [] e.op = "not" -> Strict(Bool(A(1).s = "false"))
       [] e.op = "and" -> IF False(A(1)) \/ False(A(2)) THEN Bool(FALSE) ELSE Strict(Bool(TRUE))
       [] e.op = "or" -> IF True(A(1)) \/ True(A(2)) THEN Bool(TRUE) ELSE Strict(Bool(FALSE))
       [] e.op = "cond" -> IF ~A(1).ok THEN Bad ELSE IF A(1).s = "true" THEN A(2) ELSE A(3)
       [] e.op = "size" -> Strict(Scalar(ToString(IF e.n = "one" THEN Len(A(1).s) ELSE IF e.n = "list" THEN Len(A(1).e) ELSE Cardinality(A(1).m))))
       [] e.op = "idx" -> Strict(LET i == Num(e.n, 10, 0) + 1 IN IF i <= Len(A(1).e) THEN Scalar(A(1).e[i]) ELSE Bad)
       [] e.op = "mapidx" -> Strict(LET p == {x \in A(1).m : x[1] = e.n} IN IF p = {} THEN Bad ELSE Scalar((CHOOSE x \in p : TRUE)[2]))
       [] e.op = "inl" -> Strict(Bool(\E i \in 1 .. Len(A(2).e) : A(2).e[i] = A(1).s))
       [] e.op = "inm" -> Strict(Bool(\E x \in A(1).m : x[1] = e.n))
       [] e.op = "cat" -> Strict(Scalar(A(1).s \o A(2).s))
       [] e.op = "catl" -> Strict(List(A(1).e \o A(2).e))
       [] e.op = "add" -> Strict(Scalar(ToString(IntOf(A(1)) + IntOf(A(2)))))
       [] OTHER -> Strict(IF IntOf(A(2)) = 0 THEN Bad ELSE Scalar(ToString(Quot(IntOf(A(1)), IntOf(A(2))))))

\* service variables: [name, form, kind, cond, by, msg, src]; the dependency answers "r" \o id, or fails for the ids in fails
RECURSIVE Eval(_, _, _, _)
\* st = [err, msg, vals, calls]; err: "" none, "eval" an expression or a call failed, "invalid" a validation failed
Eval(p, i, fails, st) ==
  IF st.err # "" \/ i > Len(p.vars) THEN st
  ELSE LET d == p.vars[i]
           r == [env |-> p.env, envv |-> st.env, vars |-> p.vars, vals |-> st.vals, it |-> Bad]
           cond == IF d.cond.op = "none" THEN Bool(TRUE) ELSE Ev(d.cond, r)
           by == Ev(d.by, r)
           fail(m) == [st EXCEPT !.err = IF m.ok THEN "invalid" ELSE "eval", !.msg = m.s]
           done(v) == [st EXCEPT !.vals = Append(@, v)]
           next ==
             IF ~cond.ok THEN fail(Bad)
             ELSE IF cond.s = "false" THEN done(Zero(d.kind))
             ELSE CASE d.form = "by" -> IF by.ok THEN done(by) ELSE fail(Bad)
                    [] d.form = "val" -> IF ~by.ok THEN fail(Bad) ELSE IF by.s = "true" THEN fail(Ev(d.msg, r)) ELSE done(Bool(TRUE))
                    [] d.form = "map" -> LET src == At(p.vars, st.vals, d.src)
                                             vs == [k \in 1 .. Len(src.e) |-> Ev(d.by, [r EXCEPT !.it = Scalar(src.e[k])])]
                                         IN IF \E k \in 1 .. Len(vs) : ~vs[k].ok THEN fail(Bad) ELSE done(List([k \in 1 .. Len(vs) |-> vs[k].s]))
                    [] OTHER -> \* a message with one call
                         IF ~by.ok THEN fail(Bad)
                         ELSE LET c == [st EXCEPT !.calls = Append(@, by.s)]
                              IN IF \E k \in 1 .. Len(fails) : fails[k] = by.s THEN [c EXCEPT !.err = "eval"]
                                 ELSE [c EXCEPT !.vals = Append(@, Scalar("r" \o by.s))]
       IN Eval(p, i + 1, fails, next)

\* what constructing the service with the operating system's variables os does
Start(p, os, cfg, fails) ==
  LET env == Load(p.env, os)
      none == [err |-> "", msg |-> "", vals |-> <<>>, calls |-> <<>>, env |-> env]
  IN IF p.dep /\ cfg # "full" THEN [none EXCEPT !.err = "client"]
     ELSE IF ~Loaded(env) THEN [none EXCEPT !.err = "env"]
     ELSE Eval(p, 1, fails, none)
========================================================================
