import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state,obs,hook="no"):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x,meaning=x) for x in state],observe_at=obs,hook_needed=hook)))
RT="generator/templates/eval.go.tmpl"; SV="generator/templates/server.go.tmpl"; CEL="grpc/federation/cel.go"; GR="resolver/graph.go"; DEF="resolver/def.go"; RES="resolver/resolver.go"
EH="generator/templates/error_handler.go.tmpl"; CG="generator/code_generator.go"
why_sched="The examples run one schema under one goroutine schedule; which definition finishes first, and what is in flight meanwhile, is decided by backend latencies that a fixed test never varies."
p("R01","A definition is evaluated only after everything it refers to",
"In every message with federation definitions, a `def` (including its `if`, request fields and their `if`, retry condition, error blocks and details, map source and body, enum and message arguments) starts only when every earlier definition whose variable it mentions, and every validation declared before it, has completed successfully. It then sees exactly the values those definitions produced, and the message's arguments as passed by the caller.",
["programs","schedules","inputs"],"All definition sets (any dependency DAG, any mix of def kinds), all orders in which backend calls complete.",
why_sched+" A reference overlooked in one syntactic position only matters when the two definitions race.",
[DEF,GR,RT,CEL],[("ReferenceNames of each expression form","resolver/def.go ReferenceNames"),("setupVariableDefinitionSet","resolver/graph.go"),("evalDefGroup template","generator/templates/eval.go.tmpl"),("EvalDef","grpc/federation/cel.go")],
["per-message definition status","in-flight backend calls and their request payloads"],["gRPC client stubs of the generated service (Invoke entry/exit)","response of the federation method"])
p("R02","Each definition is evaluated exactly once per message resolution",
"While a message is resolved, each of its definitions is evaluated at most once no matter how many other definitions depend on it and how their evaluations interleave, and on success exactly once; all dependents share that one result. In particular a backend call without retry is sent exactly once per definition (once per element for a map).",
["programs","schedules"],"All dependency DAGs with shared ancestors, all interleavings of the goroutines that demand the same definition.",
"Duplicate evaluation needs two dependents to demand the same definition inside a narrow window; a unit test sees one interleaving.",
[CEL,GR,RT],[("LocalValue.do (singleflight plus result cache)","grpc/federation/cel.go LocalValue.do"),("VariableDefinitionGroups","resolver/graph.go createVariableDefinitionGroup")],
["singleflight result map per message value"],["number of Invoke calls per definition instance","invocations of the callback given to EvalDef"])
p("R03","Definitions that do not depend on each other run concurrently",
"As soon as all definitions a `def` depends on (by reference or because they are earlier validations) have completed, its backend call is started without waiting for any other definition of the message to finish. Elements of a `map` are the exception: they are processed one at a time, in source order.",
["programs","schedules"],"All dependency DAGs and all completion orders of the outstanding calls.",
why_sched+" A lost edge of parallelism leaves every functional test green and only shows as latency.",
[GR,RT],[("ConcurrentVariableDefinitionGroup / SequentialVariableDefinitionGroup","resolver/graph.go"),("evalDefSet, evalDefGroup","generator/templates/eval.go.tmpl"),("GoWithRecover","grpc/federation/error.go")],
["set of in-flight calls at quiescence"],["in-flight set at the gRPC client stubs while responses are withheld"])
p("R04","An unhandled failure fails the request and stops its dependents",
"If a definition, field expression or nested message fails and no error block absorbs it, the federation method returns an error (one that some failing definition actually produced) and no response, no definition that depends on the failed one is started, and the method returns once the calls already in flight have returned. The method always terminates: it never hangs when every backend call has answered.",
["programs","schedules","fault_sequences"],"All programs, all subsets of failing calls, all positions in the completion order at which they fail.",
"The number of (failing subset, completion order) pairs is exponential and tests sample a handful with one failure each.",
[RT,CEL,"grpc/federation/error.go"],[("errgroup wait and error return","generator/templates/eval.go.tmpl evalDefGroup"),("evalDef error path","grpc/federation/cel.go")],
["error state of each definition","outstanding calls"],["returned (response, error) pair","in-flight calls at return"])
p("R05","The first matching error block, in declaration order, decides a failed call",
"When a backend call finally fails, its error blocks are tried in declaration order; the first whose `if` is true (absent means true) decides and later ones are not consulted. `ignore` makes the call succeed with an empty value, `ignore_and_response` makes it succeed with the given response, and if no block matches, or evaluating a block fails, the caller sees the original backend error.",
["programs","inputs","fault_sequences"],"All lists of error blocks and all backend statuses (code, message, details).",
"Block selection is a decision table over conditions, kinds and statuses whose combinations far exceed the example's cases.",
[EH],[("errorHandler template","generator/templates/error_handler.go.tmpl"),("SetGRPCError","grpc/federation/cel.go"),("resolveGRPCError","resolver/resolver.go")],
["error blocks and the status under handling"],["returned status, value seen by dependents"])
p("R06","A handled error carries the declared status parts, else the original's",
"When an error block (not ignore) matches, the returned status has the block's code if given and otherwise the backend's code, the block's message if given and otherwise the backend's message (\"error\" if that is empty), and if the block lists details exactly those details whose conditions hold, in declaration order within each kind, and otherwise the backend's details unchanged.",
["programs","inputs"],"All combinations of present/absent code, message and details (each kind of detail), and all backend statuses.",
"Each optional part doubles the number of generated-code shapes; tests pin a few of them.",
[EH,"grpc/federation/validation.go"],[("status construction","generator/templates/error_handler.go.tmpl"),("PreconditionFailure, BadRequest, LocalizedMessage, CustomMessage","grpc/federation/validation.go")],
["status under construction"],["status.FromError of the method's error"])
p("R07","`error` always denotes the failure being handled",
"While the retry condition and error blocks of a failed call are evaluated, the `error` variable describes that call's own latest failure (code, message, details), never the failure of another call that fails concurrently or earlier in the same message.",
["schedules","fault_sequences"],"All pairs/sets of calls of one message failing concurrently, under all interleavings of recording the failure and evaluating conditions.",
"Needs two calls of one message to fail within the same few microseconds, or a failure without gRPC status after one with.",
[CEL,"grpc/federation/lib.go",EH],[("SetGRPCError","grpc/federation/cel.go"),("WithRetry","grpc/federation/lib.go")],
["`error` entry of the message's CEL variables"],["which block/ retry decision is taken for each failure"])
p("R08","Retry repeats a call exactly as its policy says",
"A call with a retry policy is re-sent, with the same request, after each failure for which the policy's `if` holds (absent means always), at most `max_retries` further times (5 if unspecified, unlimited if 0); it stops at the first success, or at the first failure for which `if` is false or cannot be evaluated. The final failure is what error blocks and callers see, and without a policy a call is sent once.",
["programs","inputs","fault_sequences"],"All policies (constant, exponential, limits, conditions) and all sequences of attempt outcomes.",
"The outcome depends on the whole history of attempt results, not on one input.",
["grpc/federation/lib.go","generator/templates/retry.go.tmpl",RES],[("WithRetry","grpc/federation/lib.go"),("resolveRetry and defaults","resolver/resolver.go resolveRetryConstant/Exponential")],
["attempt counter and last outcome"],["Invoke calls per definition and their payloads"])
p("R09","A timeout bounds a call or method and is reported as DEADLINE_EXCEEDED",
"A call or federation method with `timeout` never outlives it from the caller's point of view: when it expires first, the call (including its retries) fails with DEADLINE_EXCEEDED carrying ErrorInfo metadata with the method name and timeout, and is then handled like any failed call; when the work finishes first its own result is returned unchanged. Late completion of the abandoned work has no effect, and panics in it are contained.",
["schedules","configurations","fault_sequences"],"All placements of timeouts on calls and methods, all choices of which calls hang.",
"Needs time-outs to fire at particular points relative to other calls, with handlers and retries attached.",
["grpc/federation/lib.go",RT,SV],[("WithTimeout","grpc/federation/lib.go"),("UseTimeout branches","generator/templates/eval.go.tmpl, server.go.tmpl")],
["deadline vs completion"],["returned status and details; later events"])
p("R10","A false `if` yields the zero value and performs nothing",
"A definition whose `if` is false performs no call, evaluates nothing else, and binds the zero value of its type, and dependents proceed with that value; a request field whose `if` is false is left unset. If the condition is true the definition behaves as if `if` were absent, and a condition that fails to evaluate fails the definition.",
["programs","inputs"],"All definition kinds and request fields under all truth values of their conditions and of their dependencies' conditions.",
"Every condition doubles the number of evaluation paths through a message.",
[CEL,RT],[("evalDef/evalDefMap condition","grpc/federation/cel.go"),("setCELArgument If","generator/templates/eval.go.tmpl")],
["condition outcome per definition"],["Invoke calls, request payloads, response fields"])
p("R11","`map` yields one element per source element, in order",
"A map definition evaluates its body once per source element in source order, with the iterator bound to that element and all other variables as at the start, and yields the list of results in that order (empty for an empty source). The first failing element fails the map and no later element is processed.",
["programs","inputs","fault_sequences"],"All map bodies (by, message, enum), all source lists, all failing positions.",
"Requires varying length, order, failing element and body kind together.",
[CEL,RT],[("evalMap, MapIteratorValue","grpc/federation/cel.go"),("DefMap generation","generator/templates/eval.go.tmpl")],
["iteration index and accumulated list"],["Invoke order and payloads, response list"])
p("R12","Validations gate everything declared after them",
"A validation whose condition holds fails the message with the declared code, message and details, and nothing declared after it (in the same definition list) is started; when its condition does not hold it has no effect other than ordering. A validation whose expressions cannot be evaluated fails the request instead of being skipped.",
["programs","inputs","schedules"],"All positions of validations among other definitions, all condition outcomes.",
"The gating effect is visible only when later definitions could have started earlier.",
["generator/templates/validation.go.tmpl",GR,CEL],[("messageValidation template","generator/templates/validation.go.tmpl"),("setupVariableDependencyByValidation","resolver/graph.go")],
["validation status"],["Invoke calls after a failing validation; returned status"])
p("R13","Response fields hold exactly what their rules say",
"After the definitions of a message complete, every field holds the value of its `by` expression, of the autobound variable's same-named field (an explicit rule wins), or the result of its custom resolver; arguments reach nested messages and backend requests under the declared names, including inlined arguments. A field is never silently left unset or filled from another variable.",
["programs","inputs"],"All assignments of binding rules to fields, all values.",
"Field wiring is generated per schema; a test checks only the wiring of its own schema.",
[CG,SV,RES],[("ReturnFields/SetterParam","generator/code_generator.go"),("resolveAutoBindFields","resolver/resolver.go"),("setArgument template","generator/templates/eval.go.tmpl")],
["message value under construction"],["response message","request payloads"])
p("R14","A oneof takes the first alternative whose condition holds",
"For a oneof response, the first field in declaration order whose `if` holds is set, using its own `def`s and `by`; otherwise the default field if there is one; exactly one alternative is set, definitions of alternatives that are not selected are not evaluated, and a failing condition or value fails the message.",
["programs","inputs"],"All condition outcomes over all alternatives.",
"Selection is a decision table over all alternatives' conditions.",
[SV,CG],[("setReturnValueByOneofFields","generator/templates/server.go.tmpl"),("validateFieldsOneofRule","resolver/resolver.go")],
["selected alternative"],["oneof case in the response, Invoke calls"])
p("R15","Value conversions preserve the value or fail",
"Converting between message aliases, enum aliases and numeric types of differing width, signedness or kind (also enums to numbers), in a field, an argument, a request or an alias, also inside repeated, map and oneof fields, either yields the same value (for enums the aliased value, else the declared default) or, when the integer does not fit the target type, fails the request with an overflow error; it never wraps or drops an element. Conversion of absent (nil) messages yields absent or, through an expression, empty messages.",
["inputs","programs"],"All source/target type pairs the resolver accepts, all boundary values.",
"The wrong cases are single boundary values of particular type pairs.",
["grpc/federation/cast.go","generator/templates/cast.go.tmpl",CG],[("Int64ToInt32 etc.","grpc/federation/cast.go"),("castRepeated/castMap/castEnum/castOneof","generator/templates/cast.go.tmpl"),("typeConversion requirement","resolver/type_conversion.go")],
["value before/after conversion"],["request payloads and response fields"])
p("R16","A panic is confined to the request that raised it",
"A panic in a backend stub, custom resolver or generated code, on whichever goroutine of the request it happens, makes that federation method return an error carrying the panic message; the process survives, no lock stays held, and other requests, concurrent or later, behave as if it had not happened.",
["schedules","fault_sequences"],"All panic sites (call, custom resolver, map element, nested message, inside timeout or retry), all other requests in flight.",
"Whether a panic is contained depends on the goroutine it happens on, which differs with the graph shape.",
["grpc/federation/error.go","grpc/federation/lib.go",SV],[("GoWithRecover, RecoverError","grpc/federation/error.go"),("WithTimeout recover","grpc/federation/lib.go"),("method recover","generator/templates/server.go.tmpl")],
["process liveness, lock state"],["returned error; results of concurrent and subsequent requests"])
p("R17","Requests are independent: repetition and concurrency change nothing",
"The result of a request depends only on its input, the backends' answers and the service's start-up state: the n-th request, and requests running concurrently with any others on the same service, give the same calls and response as the same request alone on a fresh service. Compiled expressions cached by earlier requests never change a later result.",
["histories","schedules"],"All histories of requests, sequential and concurrent, on one service instance.",
"Interference needs particular pairs of requests and cache states.",
[CEL,SV],[("CELCacheMap, createCELProgram","grpc/federation/cel.go"),("CELCacheIndex allocation","generator/code_generator.go")],
["service-wide CEL cache"],["calls and responses per request"])
p("R18","Service start-up evaluates env and service variables once, in order",
"Creating a service loads its declared environment (each variable from its upper-case name or its alternate, else its default, else the zero value; an ignored one keeps the zero value; a missing required one or a text which is not of the type is an error), then evaluates its service variables in declaration order with the earlier ones and the environment visible: a false `if` gives the zero value and performs nothing, a validation whose condition holds fails construction with INTERNAL and its message, a failing expression or call fails construction, and each variable is evaluated exactly once. After start-up every request sees exactly these values, however the process's environment changes. A missing or failing client makes construction fail.",
["configurations","inputs"],"All environments and all orders/kinds of service variables.",
"Depends on environment contents and variable order, which tests fix.",
[SV,RES,"resolver/service.go"],[("initServiceVariables","generator/templates/server.go.tmpl"),("resolveServiceVariables, resolveEnv","resolver/resolver.go")],
["env struct, service variable struct"],["New<Service> result; response fields bound to them"])
p("R19","Custom resolvers get the resolved arguments and decide the value",
"A message with a custom resolver calls it exactly once per resolution, after all its definitions, with the message's arguments and all its variables, and its result becomes the message; a field custom resolver is called once after that with the same arguments (and the message when that is custom-resolved), and sets that field. An error from either fails the resolution unchanged.",
["programs","inputs"],"All combinations of message/field resolvers, arguments and definitions.",
"Argument wiring is generated per schema.",
[SV,CG],[("CustomResolver calls","generator/templates/server.go.tmpl"),("CustomResolverArguments","generator/code_generator.go")],
["resolver arguments"],["Resolver interface invocations, response"])
p("R20","ErrorHandler has the last word on call errors; errors log at block level",
"Every call failure that is not ignored passes, after its error blocks, exactly once through the configured ErrorHandler with the failing method's name; the error it returns is what the request reports, and if it returns nil the failure is absorbed. The failing request logs its error once with the matching block's log level (ERROR by default).",
["programs","fault_sequences"],"All error-block outcomes, all handler behaviours.",
"The order handler/block/log is only observable with a recording handler across block kinds.",
[EH,"grpc/federation/error.go",SV],[("s.errorHandler invocation","generator/templates/error_handler.go.tmpl"),("OutputErrorLog, NewErrorWithLogAttrs","grpc/federation/error.go")],
["error passed along"],["ErrorHandler invocations, log records, returned error"])
p("R21","Log attributes stay in the scope that added them",
"Attributes added with grpc.federation.log.add (or a logger set by a custom resolver) appear on later records of the same message resolution and of messages it resolves afterwards, and never on records of sibling or parent messages or of other requests.",
["histories","schedules"],"All trees of nested message scopes with additions at any point.",
"Leaks appear only for particular nesting and order of additions.",
["grpc/federation/log/context.go",SV],[("WithLogger, AddAttrs","grpc/federation/log/context.go"),("WithLogger at message/resolver entry","generator/templates/server.go.tmpl")],
["loggerRef per context"],["records at the configured slog handler"])
p("C01","Cyclic message dependencies are rejected, acyclic ones accepted",
"Resolving a schema whose messages depend on each other cyclically - through `message` definitions at any place they may occur (definitions, map bodies, oneof definitions, error and validation definitions and details) - reports a cyclic-dependency error, whether or not some message outside the cycle refers to it; schemas without a cycle are never rejected for that reason. Resolution terminates in either case.",
["programs"],"All message graphs, all syntactic positions of the edges.",
"Graphs are unbounded; the tests contain one cycle.",
[GR,RES],[("CreateAllMessageDependencyGraph","resolver/graph.go"),("validateAllMessageGraph","resolver/graph.go")],
["message dependency graph"],["Resolver.Resolve error"])
p("C02","Only well-scoped, well-typed definitions are accepted",
"A definition may refer to variables declared before it in its own or an enclosing scope and to declared arguments; schemas that refer to later, out-of-scope or undefined names, declare a name twice, use a non-boolean condition, map over a non-list, or bind an expression to a field of incompatible type are rejected with an error, and well-formed schemas are accepted.",
["programs"],"All placements of names and types over the definition forms.",
"The rejected space is combinatorial in scope position and type.",
[RES],[("resolveMessageCELValues and friends","resolver/resolver.go"),("validateDuplicatedVariableName, validateBindFieldType","resolver/resolver.go")],
["typing environment"],["Resolver.Resolve error or success"])
p("C03","Resolution and code generation are deterministic",
"The same input files always yield the same generated code, the same errors and warnings, in the same order, independent of map iteration order, of what else the process compiled before, and of whether it is the first or a repeated run.",
["histories","programs"],"All inputs, all runs.",
"Go's randomised map order makes instability show up only in some runs and for inputs with several candidates.",
[RES,GR,CG],[("sorting of names and dependencies","resolver, generator")],
["resolver caches"],["bytes of generated files; error text"])
p("C04","What the resolver accepts, the generator turns into compiling Go",
"For every schema accepted by the resolver, code generation succeeds and the generated Go code compiles.",
["programs"],"All accepted schemas.",
"Golden files cover fixed schemas; each combination of options produces a new code shape.",
[CG,SV,RT,EH],[("templates","generator/templates"),("CodeGenerator","generator/code_generator.go")],
["generated code"],["go build of the generated package"])
p("C05","Code-generation plugins receive the resolver's result unchanged",
"Encoding the resolver's result for a code-generation plugin and decoding it again preserves every message, field, rule, definition, graph and type, so that code generated from the decoded result equals code generated from the original.",
["programs"],"All accepted schemas.",
"A field forgotten in one of ~60 encoder/decoder pairs only matters for schemas that use it.",
["grpc/federation/generator/encode.go","grpc/federation/generator/decode.go"],[("CreateCodeGeneratorRequest, ToResult","grpc/federation/generator")],
["encoded request"],["decoded files compared with the originals"])
p("G01","The generator's view always matches the files on disk",
"After any history of creating, modifying, breaking, repairing, replacing and deleting proto files - events arriving one at a time - each processed event reports exactly one result per known proto file: create/update for the changed one, delete (with the files generated before) for removed ones, keep with the current output for all others. What has been written is what a fresh generation of each file, at the time it was last changed and could be generated, would write; a file that fails to generate keeps its last output and is reported again as soon as it can be generated.",
["histories"],"All histories of file operations.",
"State accumulates over a history; tests perform single runs.",
["generator/generator.go","generator/watcher.go"],[("createProtoFile/updateProtoFile/deleteProtoFile/otherResults","generator/generator.go"),("BuildCacheMap","generator/generator.go")],
["build cache"],["ProtoFileResults passed to the post-process handler; files written"])
p("L01","CEL list functions mean what their mathematical definitions say",
"sortAsc, sortDesc (ascending/descending by key), sortStableAsc, sortStableDesc (keeping the order of equal keys), reduce (left fold), first (first match or none), and flatten of nested lists return exactly those results for every list and every key/predicate expression, leaving the source list unchanged.",
["inputs"],"All lists over a small value domain up to a bound, all key functions.",
"Stability and duplicates need particular lists; examples use a few.",
["grpc/federation/cel/list.go"],[("ListLibrary macros","grpc/federation/cel/list.go")],
["list value"],["value of the CEL expression"])
p("W01","The CEL plugin host keeps calls and answers matched and never wedges",
"Each CEL plugin function call returns the plugin's answer to that very call, however many calls, garbage collections and closes run concurrently; if the plugin instance dies or is closed, pending and later calls return an error instead of blocking or panicking, and closing is idempotent.",
["schedules","crash_points","histories"],"All interleavings of Call, GC and Close, and plugin death at any point.",
"Needs the plugin to die at a chosen protocol step while others wait.",
["grpc/federation/cel/plugin.go"],[("CELPluginInstance.Call/GC/Close","grpc/federation/cel/plugin.go")],
["instance mutex, channels, closed flag"],["results of calls on a live plugin instance"])
p("S01","Source positions and logical locations agree",
"Whenever the element at a position of a proto file is looked up (File.FindLocationByPos finds one), the range of source text that the position lookup (File.NodeInfoByLocation) gives for that location contains the position (the end of the range included), and the location is the one of the element standing there, whichever elements and options precede it. Imports, field types, the strings of by/alias/timeout/default options and the names of calls, requests, messages and arguments are found from every position inside them, however the option is written: one message value or several options, one list or several entries, one string or several pieces. The location of every element as the location builders make it gives that element's range, so that an error reported for the element points at its source text.",
["inputs","programs"],"All positions of all files of the schema corpus, of the specification's enumerated ways to write options and of generated files.",
"Each option form has its own code path in both directions.",
["source/file.go","source/location.go"],[("File.FindLocationByPos, File.NodeInfoByLocation","source/file.go"),("LocationBuilder","source/location.go")],
["location tree"],["FindLocationByPos/NodeInfoByLocation results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
