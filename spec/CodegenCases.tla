--------------------------- MODULE CodegenCases ---------------------------
(* The schemas C04 puts through the stages of Codegen.tla, besides those of ConvCases: an identifier in a role, two       *)
(* identifiers in two roles that may meet in one Go scope, and two features of a federation service together.             *)
EXTENDS Naturals, Sequences

(* where a schema names something *)
Roles == {
  "file", "package", "gopkg", "uppackage", "upgopkg", "service", "upservice", "rpc", "uprpc", "message", "nested",
  "upmessage", "upreqfield", "upfield", "reqfield", "field", "mapfield", "def", "defmsg", "defmap", "defenum", "iter", "arg", "errdef",
  "detaildef", "oneofdef", "enum", "enumvalue", "upenum", "oneof", "member", "uponeof", "upmember", "env", "var", "plugin", "function", "method",
  "receiver", "custom", "attr" }

GoWords == {
  "type", "range", "func", "map", "chan", "select", "go", "defer", "interface", "package", "import", "return", "var", "const",
  "switch", "default", "struct", "goto", "fallthrough", "case", "break", "continue", "else", "for", "if" }
Predeclared == {
  "string", "len", "nil", "true", "append", "any", "int", "bool", "byte", "new", "make", "iota", "cap", "copy", "init", "main",
  "error", "int32", "int64", "float64", "panic", "recover", "close", "print", "min", "max", "clear" }
Locals == {
  "ctx", "req", "ret", "res", "err", "e", "value", "v", "s", "r", "span", "from", "attrs", "key", "val", "casted", "def", "d",
  "msg", "client", "logger", "resolver", "vars", "cfg", "eg", "x", "dst", "name", "k", "ok", "stat", "p", "i", "idx", "b", "c",
  "errorHandler", "tracer", "svcVar", "celCacheMap", "celEnvOpts", "customRes", "content", "plug", "arg0", "def0", "value1", "eg1" }
Packages == {
  "context", "log", "slog", "otel", "trace", "metadata", "reflect", "fmt", "os", "io", "runtime", "bufio", "grpcfed",
  "grpcfedcel", "status", "codes", "grpc", "proto", "anypb", "timestamppb", "durationpb", "time", "errors", "sort", "federation", "sync" }
Generated == {
  "reset", "descriptor", "proto_message", "proto_reflect", "get_id", "id", "size_cache", "unknown_fields", "state", "marshal",
  "Reset", "String", "Context", "Request", "Response", "Argument", "Config", "Error", "Env", "Client", "Server", "Variable",
  "Resolver", "Logger", "Service", "ClientConfig", "ClientFactory", "DependentClientSet", "Plugin", "register", "init_service" }
Shapes == {
  "foo_1bar", "a__b", "trailing_", "ID", "URL", "fooBar", "Foo", "X", "a1", "a_1", "FOO_BAR", "message", "field", "request",
  "has", "all", "size", "in", "as", "list", "dyn", "null_type", "timestamp", "duration", "uint", "double", "env", "args" }
Names == GoWords \cup Predeclared \cup Locals \cup Packages \cup Generated \cup Shapes

(* protoc-gen-go itself produces no valid Go for a package named by a keyword *)
NameCases == {x \in [role : Roles, name : Names] : x.role \in {"gopkg", "upgopkg"} => x.name \notin GoWords}

(* what CEL keeps for itself, and what is a type there *)
CELWords == {"true", "false", "null", "in", "as", "break", "const", "continue", "else", "for", "function", "if", "import", "let",
             "loop", "package", "namespace", "return", "var", "void", "while"}
CELTypes == {"bool", "int", "uint", "double", "string", "bytes", "list", "map", "type", "null_type"}
Scalars == {"string", "bool", "bytes", "int32", "int64", "uint32", "uint64", "float", "double"}
Variables == {"def", "defmsg", "defmap", "defenum", "errdef", "detaildef", "oneofdef", "var", "iter"}
(* names the language takes for something else: the resolver may reject them *)
MayReject(role, name) ==
  \/ role \in Variables /\ name \in CELWords \cup CELTypes \cup {"error"}
  \/ role \in {"package", "uppackage"} /\ name \in CELWords \cup {"Error"}
  \/ role \in {"message", "nested", "enum", "upenum", "receiver", "upmessage"} /\ name \in Scalars \cup CELWords \cup {"error"}
  \/ role \in {"arg", "env", "upfield", "reqfield", "field", "function", "method", "upreqfield", "mapfield"} /\ name \in CELWords \cup {"error"}
  \/ role = "method" /\ name \in {"map", "has", "all"}
  \/ role = "function" /\ name \in {"has"}

(* two names that differ for Protocol Buffers but may be one for Go *)
Twins == {
  << "foo_bar", "fooBar" >>, << "foo_bar", "FooBar" >>, << "foo_bar", "foo__bar" >>, << "id", "ID" >>, << "id", "Id" >>, << "a_1", "a1" >>,
  << "id", "get_id" >>, << "reset", "reset_" >>, << "a", "A" >>, << "a_b", "aB" >>, << "a_B", "a_b" >>, << "x", "x_" >> }
TwinRoles == {
  << "def", "plainone" >>, << "def", "reqfield" >>, << "def", "arg" >>, << "arg", "arg2" >>, << "reqfield", "reqfield2" >>, << "field", "envs" >>,
  << "upfield", "upfield2" >>, << "def", "errdef" >>, << "def", "iter" >>, << "env", "env2" >>, << "var", "var2" >>, << "message", "message2" >>,
  << "upmessage", "message" >>, << "enum", "message" >>, << "rpc", "rpc2" >>, << "service", "message" >>, << "oneof", "field" >>, << "member", "field" >>,
  << "plugin", "message" >>, << "function", "function2" >>, << "nested", "member" >>, << "upenum", "enum" >>, << "var", "env" >> }
TwinCases == [roles : TwinRoles, names : Twins]

(* what two roles may share *)
SameCases == [roles : { << "def", "reqfield" >>, << "def", "arg" >>, << "def", "field" >>, << "def", "env" >>, << "def", "var" >>, << "arg", "field" >>,
                        << "iter", "arg" >>, << "iter", "env" >>, << "env", "var" >>, << "upmessage", "message" >>, << "upenum", "enum" >>, << "rpc", "message" >>,
                        << "service", "upservice" >>, << "message", "rpc" >>, << "uppackage", "package" >>, << "upgopkg", "gopkg" >>, << "def", "upgopkg" >>,
                        << "def", "gopkg" >>, << "arg", "upgopkg" >>, << "errdef", "arg" >>, << "detaildef", "arg" >>, << "def", "package" >>, << "def", "uppackage" >>,
                        << "plugin", "service" >>, << "plugin", "package" >>, << "def", "plugin" >>, << "oneof", "member" >>, << "nested", "member" >>, << "enum", "message" >>,
                        << "nested", "message" >>, << "field", "oneof" >>, << "custom", "field" >>, << "custom", "def" >> },
              name : { "zed", "Zed", "id", "data", "Data" }]

(* a string that reaches the generated code in a role *)
Texts == { "backquote", "quote", "doublequote", "backslash", "newline", "percent", "unicode", "comment", "tab", "empty", "brace", "dollar" }
TextRoles == { "by", "if", "arg", "request", "errmessage", "errif", "validation", "detail", "locale", "retryif", "mapby", "attr", "envdefault", "envalternate",
               "oneofif", "oneofby", "varby", "varif", "detailif", "description", "ignoreresponse", "defif", "varmessage" }
TextCases == [text : Texts, role : TextRoles]

=============================================================================
