------------------------------- MODULE Conv -------------------------------
(* What a conversion of ConvCases.tla does with a value: R15. A value is a member (of a oneof: "f", "z" or none; of a plain  *)
(* field always "f") and the sequence of its elements, all of them texts: numbers in decimal, enum values by their number.  *)
EXTENDS Integers, Sequences, FiniteSets, ConvCases

(* the interesting integers, ascending *)
Points == <<
  "-36893488147419103232", "-9223372036854775809", "-9223372036854775808", "-2147483649", "-2147483648", "-32769", "-129", "-77", "-1", "0", "1", "2", "100", "127",
  "128", "255", "256", "32767", "32768", "65535", "65536", "16777216", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740992", "9223372036854775807",
  "9223372036854775808", "18446744073709551615", "18446744073709551616", "1267650600228229401496703205376" >>
Rank(p) == CHOOSE i \in DOMAIN Points : Points[i] = p
IsPoint(p) == \E i \in DOMAIN Points : Points[i] = p

Lo(t) == CASE t \in Ints32 -> "-2147483648" [] t \in Ints64 -> "-9223372036854775808" [] t \in Uints32 \cup Uints64 -> "0" [] OTHER -> Points[1]
Hi(t) == CASE t \in Ints32 -> "2147483647" [] t \in Ints64 -> "9223372036854775807" [] t \in Uints32 -> "4294967295"
         [] t \in Uints64 -> "18446744073709551615" [] OTHER -> Points[Len(Points)]
InRange(t, p) == Rank(Lo(t)) <= Rank(p) /\ Rank(p) <= Rank(Hi(t))
(* the integers a floating-point type has *)
Exact(t, p) == CASE t = "double" -> p \notin {"-9223372036854775809", "9223372036854775807", "18446744073709551615"}
               [] t = "float" -> p \notin {"-9223372036854775809", "9223372036854775807", "18446744073709551615", "-2147483649", "16777217", "2147483647", "4294967295"}
               [] OTHER -> TRUE

(* the values of a type *)
AbsentAtom == "absent"
Messages == {"P", "Q", "W", "T", "D"}
Domain(t) ==
  CASE t \in Numbers -> {p \in {Points[i] : i \in DOMAIN Points} : InRange(t, p) /\ Exact(t, p)}
  [] t = "K" -> {"0", "1", "2", "5", "99", "-1"}
  [] t = "L" -> {"0", "1", "3", "99"}
  [] t = "M" -> {"0", "1", "2", "99"}
  [] t = "bool" -> {"0", "1"}
  [] t \in {"string", "bytes"} -> {"", "x", "y"}
  [] t \in {"P", "Q"} -> {AbsentAtom, "empty", "x", "y"}
  [] OTHER -> {AbsentAtom, "0", "5"}
Zero(t) == CASE t \in Numbers \cup Enums \cup {"bool"} -> "0" [] t \in {"string", "bytes"} -> "" [] OTHER -> AbsentAtom
Empty(t) == IF t \in {"P", "Q"} THEN "empty" ELSE "0"

Overflow == "overflow"
(* one element *)
Elem(a, b, x) ==
  CASE a \in Numbers /\ b \in Numbers -> IF InRange(b, x) THEN x ELSE Overflow
  [] a \in Enums /\ b \in Ints -> IF x = "-1" /\ b \in Uints32 \cup Uints64 THEN Overflow ELSE x
  [] a = "K" /\ b = "L" -> CASE x = "1" -> "3" [] x = "2" -> "1" [] OTHER -> "0"
  [] a = "K" /\ b = "M" -> CASE x = "0" -> "0" [] x \in {"1", "5"} -> "1" [] OTHER -> "2"
  [] a = "L" /\ b = "K" -> CASE x = "1" -> "2" [] x = "3" -> "1" [] OTHER -> "0"
  [] OTHER -> x

(* the places that evaluate an expression: an absent message is an empty one for it *)
ByCEL(c) == c.place \notin {"alias", "falias", "autobind", "ralias"}
Loose(c, a, r) == IF a \in Messages /\ r = AbsentAtom /\ ByCEL(c) THEN {AbsentAtom, Empty(a)} ELSE {r}

(* what the source holds for the expression or getter *)
Read(c, v) == IF v.m = "f" THEN v.e[1] ELSE Zero(c.from)

Val(m, e) == [m |-> m, e |-> e]
Fails == Val("overflow", << >>)
Plain(c, v) == LET r == Elem(c.from, c.to, Read(c, v)) IN IF r = Overflow THEN {Fails} ELSE {Val("f", <<x>>) : x \in Loose(c, c.to, r)}
(* the int() of CEL excludes the least integer: the domain of a conversion from a floating-point number is open *)
Edge(c, v) == ByCEL(c) /\ c.from \in Floats /\ c.to \in Ints64 /\ \E i \in DOMAIN v.e : v.e[i] = "-9223372036854775808"
Result(c, v) ==
  IF c.sfrom \in {"rep", "mapv", "mapk"} THEN
    LET r == [i \in DOMAIN v.e |-> Elem(c.from, c.to, v.e[i])]
    IN IF \E i \in DOMAIN r : r[i] = Overflow THEN {Fails} ELSE {Val("f", r)}
  ELSE IF c.sto = "one" THEN Plain(c, v)
  ELSE IF ByCEL(c) THEN Plain(c, v) \cup (IF c.to \in Messages /\ Read(c, v) = AbsentAtom THEN {Val("none", << >>)} ELSE {})
  ELSE IF v.m = "f" /\ c.sfrom = "oneof" THEN
    IF v.e[1] = AbsentAtom THEN {Val("none", << >>), Val("f", <<AbsentAtom>>)} ELSE Plain(c, v)
  ELSE IF v.m = "f" THEN IF v.e[1] = Zero(c.from) THEN {Val("none", << >>), Val("f", <<Zero(c.to)>>)} ELSE Plain(c, v)
  ELSE IF v.m = "z" THEN {v}
  ELSE {Val("none", << >>)}

Allowed(c, v) == Result(c, v) \cup (IF Edge(c, v) THEN {Fails} ELSE {})

(* the inputs for a case *)
Elements(t, s) == {x \in Domain(t) : s \in {"rep", "mapv", "mapk", "oneof"} => x # AbsentAtom}
Other(t) == CHOOSE x \in Elements(t, "rep") : x # Zero(t) /\ x # Empty(t) /\ x \notin {"empty", "-1"} /\ (t \in Numbers => x = "2")
Seqs(t, s) ==
  LET D == Elements(t, s) o == Other(t)
  IN {<<x>> : x \in D} \cup (IF s \in {"one", "oneof"} THEN {} ELSE {<< >>} \cup {<<x, o>> : x \in D \ {o}} \cup {<<o, x>> : x \in D \ {o}})
Convertible(c, x) == c.to \in Floats => (Exact(c.to, x) \/ ~InRange(c.to, x))
Inputs(c) ==
  {Val("f", s) : s \in {q \in Seqs(c.from, c.sfrom) : \A i \in DOMAIN q : Convertible(c, q[i])}}
  \cup (IF c.sfrom = "oneof" THEN {Val("none", << >>)} \cup (IF c.place = "ralias" /\ c.sto = "one" THEN {} ELSE {Val("z", <<"t">>)}) ELSE {})
=============================================================================
