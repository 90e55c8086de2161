----------------------------- MODULE PluginHost -----------------------------
(* The host of a CEL plugin. An instance is alive, dead (its module has ended) or closed. Every     *)
(* request takes effect at one moment between its invocation and its return:                       *)
(*   on a living instance it gets the plugin's answer to it; `die` ends the module; `close` closes    *)
(*   on a dead or closed one it gets an error; closing has no effect                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the answer of the plugin to a request *)
Text(n) == ToString(n)
Answer(q) ==
  CASE q.op \in {"join", "slow"} -> q.s \o ":" \o Text(q.n)
    [] q.op = "meta" -> q.s \o "[" \o Text(q.k) \o "]"
    [] q.op = "method" -> q.s \o ":" \o Text(q.n) \o "k1"
    [] q.op = "add" -> q.s \o "z:" \o Text(q.n + 1) \o "2"
    [] q.op = "boxes" -> "1231" \o q.s
    [] q.op = "multi" -> q.s \o "1:" \o Text(q.n) \o "/" \o q.s \o "2:" \o Text(q.n) \o "/" \o q.s \o "3:" \o Text(q.n)
    [] q.op = "types" -> q.v
    [] q.op \in {"fail", "die", "close"} -> ""
Fails(q) == q.op \in {"fail", "die"}

(* what a request may return, by the state in which it takes effect *)
Contains(a, b) == \E i \in 0..(Len(a) - Len(b)) : SubSeq(a, i + 1, i + Len(b)) = b
Fits(q, st, o, v) ==
  CASE q.op = "close" -> o = "ok"
    [] q.op = "die" -> o = "err"
    [] st # "alive" -> o = "err" /\ v # ""
    [] q.op = "fail" -> o = "err" /\ Contains(v, "no " \o q.s)
    [] OTHER -> o = "ok" /\ v = Answer(q)
After(q, st) ==
  IF st # "alive" THEN st ELSE IF q.op = "die" THEN "dead" ELSE IF q.op = "close" THEN "closed" ELSE st
=============================================================================
