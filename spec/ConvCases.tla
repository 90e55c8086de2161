---------------------------- MODULE ConvCases ----------------------------
(* The space of conversions a federation service may be asked for: a value of type "from" in a shape, found at a source,  *)
(* is carried through a place into a field of type "to" in a shape. Used for C04 (what is accepted compiles) and, with    *)
(* Conv.tla, for R15 (what is carried is the same value).                                                                 *)
EXTENDS Naturals, Sequences

Ints32 == {"int32", "sint32", "sfixed32"}
Ints64 == {"int64", "sint64", "sfixed64"}
Uints32 == {"uint32", "fixed32"}
Uints64 == {"uint64", "fixed64"}
Ints == Ints32 \cup Ints64 \cup Uints32 \cup Uints64
Floats == {"float", "double"}
Numbers == Ints \cup Floats
(* K: an enum of the dependency, L, M: the service's enums with aliases of K (M: several per value, and a default); P: a message of the dependency, Q: the service's *)
(* message aliasing P; W: a wrapper, T: a timestamp, D: a duration                                                         *)
Enums == {"K", "L", "M"}
Others == {"bool", "string", "bytes", "P", "Q", "W", "T", "D"}
Types == Numbers \cup Enums \cup Others

Shapes == {"one", "rep", "mapv", "mapk", "oneof"}
Sources == {"call", "own"}
(* field: by of a field; alias: the message of the field is an alias of the source's message; falias: same, with another   *)
(* name given by the field option; autobind; arg: passed as message argument; inline: same, inline; oneof: by of a oneof    *)
(* field; mapel: element of a map expression; request: request field; ralias: a whole message given to a request field      *)
Places == {"field", "alias", "falias", "autobind", "arg", "inline", "oneof", "mapel", "request", "ralias"}

Key == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

(* conversions a schema could ask for *)
Plausible(a, b) ==
  \/ a = b
  \/ a \in Numbers /\ b \in Numbers
  \/ a \in Enums /\ b \in Enums /\ {a, b} # {"L", "M"}
  \/ a \in Enums /\ b \in Ints
  \/ {a, b} = {"P", "Q"}
  \/ a = "W" /\ b = "int64"
  \/ a = "int64" /\ b = "W"

Fits(t, s) == s = "mapk" => t \in Key

(* the dependency knows nothing of the service's types *)
Side(c) ==
  /\ c.src = "call" => c.from \notin {"L", "M", "Q"}
  /\ c.place \in {"request", "ralias"} => c.to \notin {"L", "M", "Q"}

SourceOf(c) ==
  /\ c.place \in {"alias", "falias", "autobind", "inline"} => c.src = "call"
  /\ c.place = "ralias" => c.src = "own"
  /\ c.place = "mapel" => c.sfrom = "rep" /\ c.sto = "rep"
  /\ c.place = "oneof" => c.sto = "oneof"
  /\ c.place # "oneof" /\ c.sto = "oneof" => c.place \in {"alias", "falias", "ralias", "request", "autobind"}
  /\ c.sfrom = c.sto \/ (c.sfrom \in {"one", "oneof"} /\ c.sto \in {"one", "oneof"})

IsCase(c) == Plausible(c.from, c.to) /\ Fits(c.from, c.sfrom) /\ Fits(c.to, c.sto) /\ Side(c) /\ SourceOf(c)

(* what the language leaves open: wrappers aren't their values; lists and maps of enums are no CEL values; a message alias   *)
(* maps enums to enums only; an enum whose values stand for several values of K can't be turned into K                      *)
MayReject(c) ==
  \/ {c.from, c.to} = {"W", "int64"}
  \/ c.from \in Enums /\ c.to \in Enums /\ c.sfrom \in {"rep", "mapv"} /\ c.place \in {"arg", "field", "inline", "mapel", "request"}
  \/ c.from \in Enums /\ c.to \in Ints /\ c.place \in {"alias", "falias", "ralias"}
  \/ c.from = "M" /\ c.to = "K"

Cases == {c \in [from : Types, to : Types, sfrom : Shapes, sto : Shapes, src : Sources, place : Places] : IsCase(c)}
=============================================================================
