------------------------------- MODULE SrcLoc --------------------------------
(* The elements of a proto file that have a location (S01), the location of each, and what looking up a position or a       *)
(* location has to give. A file is a tree of elements, given as a sequence of nodes in the order of the source:              *)
(*   [p |-> index of the parent (0: the file), f |-> kind of the element, nm |-> its name, s, e |-> first and last position]   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* What element of kind f in context c adds to the location; how: "leaf", "node", "idx" (one of a list), "named", or "none"  *)
(* (its children's locations do not mention it); to: the context of its children; find: positions inside have to be found;    *)
(* thru: elements inside can be found; v: how the value of a leaf is written                                                  *)
E(c, f, seg, how, to, find, thru, v) == [c |-> c, f |-> f, seg |-> seg, how |-> how, to |-> to, find |-> find, thru |-> thru, v |-> v]
Leaf(c, f, seg, find, v) == E(c, f, seg, "leaf", "", find, FALSE, v)
Sub(c, f, seg, to, thru) == E(c, f, seg, "node", to, FALSE, thru, "")
Idx(c, f, seg, to, thru) == E(c, f, seg, "idx", to, FALSE, thru, "")
Named(c, f, seg, to, thru) == E(c, f, seg, "named", to, FALSE, thru, "")
(* nothing but what is inside is ever located *)
Group(c, f, seg, how, to) == E(c, f, seg, how, to, FALSE, FALSE, "group")
Strs(c, fs, find) == {Leaf(c, x[1], <<x[2]>>, find, "str") : x \in fs}

Decls == {
  E("root", "import", <<"ImportName">>, "named", "", TRUE, FALSE, "str"), E("root", "fileimport", <<"ImportName">>, "named", "", FALSE, FALSE, "str"),
  Leaf("root", "go_package", <<"GoPackage">>, FALSE, "str"),
  Named("root", "message", <<"Message">>, "msg", TRUE), Named("root", "enum", <<"Enum">>, "enum", TRUE), Named("root", "service", <<"Service">>, "svc", TRUE),
  Named("msg", "message", <<"NestedMessage">>, "msg", TRUE), Named("msg", "enum", <<"Enum">>, "enum", TRUE),
  Named("msg", "field", <<"Field">>, "fld", TRUE), Named("msg", "mapfield", <<"Field">>, "mfld", FALSE),
  E("msg", "oneof", <<"Oneof">>, "named", "msg", FALSE, TRUE, "hidden"),
  Sub("msg", "option", <<"Option">>, "mopt", TRUE),
  Leaf("fld", "type", <<"Type">>, TRUE, "type"), Sub("fld", "option", <<"Option">>, "fopt", TRUE),
  Leaf("mfld", "type", <<"Type">>, FALSE, "type"), Sub("mfld", "option", <<"Option">>, "fopt", FALSE),
  Sub("enum", "option", <<"Option">>, "eopt", TRUE), Named("enum", "value", <<"Value">>, "evalue", TRUE), Sub("evalue", "option", <<"Option">>, "evopt", TRUE),
  Sub("svc", "option", <<"Option">>, "sopt", TRUE), Named("svc", "rpc", <<"Method">>, "rpc", TRUE),
  Leaf("rpc", "request", <<"Request">>, FALSE, "type"), Leaf("rpc", "response", <<"Response">>, FALSE, "type"), Sub("rpc", "option", <<"Option">>, "rpcopt", TRUE) }

Literals ==
  Strs("fopt", {<<"alias", "Alias">>}, FALSE) \cup Strs("fopt", {<<"by", "By">>}, TRUE) \cup {Sub("fopt", "oneof", <<"Oneof">>, "fone", FALSE)}
  \cup Strs("fone", {<<"if", "If">>, <<"by", "By">>}, FALSE) \cup {Leaf("fone", "default", <<"Default">>, FALSE, "bool"), Idx("fone", "def", <<"Def">>, "def", FALSE)}
  \cup {Leaf("eopt", "alias", <<"Alias">>, TRUE, "strs"), Leaf("evopt", "alias", <<"Alias">>, TRUE, "strs"), Leaf("evopt", "default", <<"Default">>, TRUE, "bool"),
        Idx("evopt", "attr", <<"Attr">>, "attr", FALSE)} \cup Strs("attr", {<<"name", "Name">>, <<"value", "Value">>}, FALSE)
  \cup {Leaf("rpcopt", "timeout", <<"Timeout">>, TRUE, "str"), Leaf("rpcopt", "response", <<"Response">>, FALSE, "str")}
  \cup {Sub("sopt", "env", <<"Env">>, "env", FALSE), Idx("sopt", "var", <<"Var">>, "svar", FALSE)}
  \cup {Leaf("env", "message", <<"Message">>, FALSE, "str"), Idx("env", "var", <<"Var">>, "evar", FALSE)}
  \cup {Leaf("evar", "name", <<"Name">>, FALSE, "str"), Leaf("evar", "type", <<"Type">>, FALSE, "any"), Sub("evar", "option", <<"Option">>, "evarop", FALSE)}
  \cup Strs("evarop", {<<"alternate", "Alternate">>, <<"default", "Default">>}, FALSE)
  \cup {Leaf("evarop", "required", <<"Required">>, FALSE, "bool"), Leaf("evarop", "ignored", <<"Ignored">>, FALSE, "bool")}
  \cup Strs("svar", {<<"name", "Name">>, <<"if", "If">>, <<"by", "By">>}, FALSE)
  \cup {Sub("svar", "map", <<"Map">>, "map", FALSE), Sub("svar", "message", <<"Message">>, "mexpr", FALSE), Sub("svar", "enum", <<"Enum">>, "eexpr", FALSE),
        Sub("svar", "validation", <<"Validation">>, "sval", FALSE)} \cup Strs("sval", {<<"if", "If">>, <<"message", "Message">>}, FALSE)
  \cup {Leaf("mopt", "alias", <<"Alias">>, TRUE, "strs"), Idx("mopt", "def", <<"Def">>, "def", TRUE)}
  \cup Strs("def", {<<"name", "Name">>, <<"if", "If">>, <<"by", "By">>}, TRUE)
  \cup {Sub("def", "map", <<"Map">>, "map", FALSE), Sub("def", "call", <<"Call">>, "call", TRUE), Sub("def", "message", <<"Message">>, "mexpr", TRUE),
        Sub("def", "enum", <<"Enum">>, "eexpr", FALSE), Sub("def", "validation", <<"Validation">>, "val", FALSE)}
  \cup {Group("map", "iterator", <<"Iterator">>, "node", "iter"), Leaf("map", "by", <<"By">>, FALSE, "str"), Sub("map", "message", <<"Message">>, "mexpr", FALSE),
        Sub("map", "enum", <<"Enum">>, "eexpr", FALSE)} \cup Strs("iter", {<<"name", "Name">>, <<"src", "Source">>}, FALSE)
  \cup {Leaf("call", "method", <<"Method">>, TRUE, "str"), Leaf("call", "timeout", <<"Timeout">>, FALSE, "str"), Idx("call", "request", <<"Request">>, "req", TRUE),
        Sub("call", "retry", <<"Retry">>, "retry", FALSE), Idx("call", "error", <<"Error">>, "err", FALSE)}
  \cup Strs("req", {<<"field", "Field">>, <<"by", "By">>, <<"if", "If">>}, TRUE)
  \cup {Leaf("retry", "if", <<"If">>, FALSE, "str"), Sub("retry", "constant", <<"Constant">>, "constant", FALSE), Sub("retry", "exponential", <<"Exponential">>, "expo", FALSE)}
  \cup {Leaf("constant", "interval", <<"Interval">>, FALSE, "str"), Leaf("constant", "max_retries", <<"MaxRetries">>, FALSE, "num")}
  \cup Strs("expo", {<<"initial_interval", "InitialInterval">>, <<"max_interval", "MaxInterval">>}, FALSE)
  \cup {Leaf("expo", "randomization_factor", <<"RandomizationFactor">>, FALSE, "num"), Leaf("expo", "multiplier", <<"Multiplier">>, FALSE, "num"),
        Leaf("expo", "max_retries", <<"MaxRetries">>, FALSE, "num")}
  \cup {Leaf("mexpr", "name", <<"Name">>, TRUE, "str"), Idx("mexpr", "args", <<"Args">>, "arg", TRUE)}
  \cup Strs("arg", {<<"name", "Name">>, <<"by", "By">>, <<"inline", "Inline">>}, TRUE)
  \cup Strs("eexpr", {<<"name", "Name">>, <<"by", "By">>}, FALSE)
  \cup {Leaf("val", "name", <<"Name">>, FALSE, "str"), E("val", "error", <<"Error">>, "idx", "err", FALSE, FALSE, "one")}
  \cup Strs("err", {<<"if", "If">>, <<"message", "Message">>, <<"ignore_and_response", "IgnoreAndResponse">>}, FALSE)
  \cup {Leaf("err", "code", <<"Code">>, FALSE, "ident"), Leaf("err", "ignore", <<"Ignore">>, FALSE, "bool"), Idx("err", "def", <<"Def">>, "def", FALSE),
        Idx("err", "details", <<"Detail">>, "det", FALSE)}
  \cup {Leaf("det", "if", <<"If">>, FALSE, "str"), Leaf("det", "by", <<"By">>, FALSE, "strs"), Idx("det", "def", <<"Def">>, "def", FALSE), Idx("det", "message", <<"Message">>, "dmsg", FALSE),
        Group("det", "precondition_failure", <<"PreconditionFailure">>, "idx", "pf"), Group("det", "bad_request", <<"BadRequest">>, "idx", "br"),
        Idx("det", "localized_message", <<"LocalizedMessage">>, "lm", FALSE)}
  \cup {Leaf("dmsg", "name", <<"Message", "Name">>, FALSE, "str"), Idx("dmsg", "args", <<"Message", "Args">>, "arg", FALSE)}
  \cup {Idx("pf", "violations", <<"Violation">>, "pfv", FALSE), Idx("br", "field_violations", <<"FieldViolation">>, "brv", FALSE)}
  \cup Strs("pfv", {<<"type", "FieldName:type">>, <<"subject", "FieldName:subject">>, <<"description", "FieldName:description">>}, FALSE)
  \cup Strs("brv", {<<"field", "FieldName:field">>, <<"description", "FieldName:description">>}, FALSE)
  \cup Strs("lm", {<<"locale", "FieldName:locale">>, <<"message", "FieldName:message">>}, FALSE)

Table == Decls \cup Literals
ASSUME \A x, y \in Table : x.c = y.c /\ x.f = y.f => x = y
Entry == [k \in {<<x.c, x.f>> : x \in Table} |-> CHOOSE x \in Table : x.c = k[1] /\ x.f = k[2]]

(* for a file N: the table entry, location and findability of every element *)
RECURSIVE EntryOf(_, _), Path(_, _), Inner(_, _), Thru(_, _)
EntryOf(N, i) == Entry[<<IF N[i].p = 0 THEN "root" ELSE EntryOf(N, N[i].p).to, N[i].f>>]
Inner(N, i) == IF i = 0 THEN <<>> ELSE IF EntryOf(N, i).v = "hidden" THEN Inner(N, N[i].p) ELSE Path(N, i)
Number(N, i) == Cardinality({j \in N[i].p + 1 .. i - 1 : N[j].p = N[i].p /\ N[j].f = N[i].f})
Path(N, i) ==
  LET x == EntryOf(N, i) IN
  Inner(N, N[i].p) \o x.seg \o (CASE x.how = "idx" -> <<ToString(Number(N, i))>> [] x.how = "named" -> <<N[i].nm>> [] OTHER -> <<>>)
Thru(N, i) == i = 0 \/ (EntryOf(N, i).thru /\ Thru(N, N[i].p))
Findable(N, i) == EntryOf(N, i).find /\ Thru(N, N[i].p)

(* looking up the location of element i gives the range of an element with this location: i itself, unless an element is      *)
(* made of several pieces (options)                                                                                            *)
LocOK(N, P, loc) ==
  LET x == EntryOf(N, loc.i) IN
  /\ loc.s > 0
  /\ IF x.how = "leaf" THEN loc.s = N[loc.i].s /\ loc.e = N[loc.i].e
     ELSE IF x.v = "group" THEN TRUE
     ELSE \E j \in 1 .. Len(N) : P[j] = P[loc.i] /\ loc.s = N[j].s /\ loc.e = N[j].e
(* a run of positions a..b at which the same location has been found, and the range that it has *)
FoundOK(N, P, r) ==
  /\ r.s > 0 /\ r.s <= r.a /\ r.b <= r.e + 1  \* the position right behind an element belongs to it, too
  /\ \E j \in 1 .. Len(N) : P[j] = r.path /\ N[j].s = r.s /\ N[j].e = r.e
(* a findable element is found at every position inside *)
SeenOK(N, P, i, runs) == Findable(N, i) => \E k \in 1 .. Len(runs) : runs[k].path = P[i] /\ runs[k].a <= N[i].s /\ N[i].e <= runs[k].b
=============================================================================
