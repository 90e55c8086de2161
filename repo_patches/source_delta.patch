From 7cceb7128071209c9fa09a09b3d1f0de98e5d3f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 01/67] fix: definitions also depend on variables used in
 request if, retry if, error message, ignore_and_response and enum map bodies

---
 resolver/def.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 76ba0a4..7a6c677 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -241,6 +241,8 @@ func (e *GRPCError) ReferenceNames() []string {
 	for _, detail := range e.Details {
 		names = append(names, detail.ReferenceNames()...)
 	}
+	names = append(names, e.Message.ReferenceNames()...)
+	names = append(names, e.IgnoreAndResponse.ReferenceNames()...)
 	return toUniqueReferenceNames(names)
 }
 
@@ -281,6 +283,10 @@ func (e *CallExpr) ReferenceNames() []string {
 	var names []string
 	for _, arg := range e.Request.Args {
 		names = append(names, arg.Value.ReferenceNames()...)
+		names = append(names, arg.If.ReferenceNames()...)
+	}
+	if e.Retry != nil {
+		names = append(names, e.Retry.If.ReferenceNames()...)
 	}
 	for _, grpcErr := range e.Errors {
 		names = append(names, grpcErr.ReferenceNames()...)
@@ -317,6 +323,8 @@ func (e *MapIteratorExpr) ReferenceNames() []string {
 		names = append(names, e.By.ReferenceNames()...)
 	case e.Message != nil:
 		names = append(names, e.Message.ReferenceNames()...)
+	case e.Enum != nil:
+		names = append(names, e.Enum.ReferenceNames()...)
 	}
 	return toUniqueReferenceNames(names)
 }
-- 
2.43.0


From 55f83bff66a43f64e07b2f112ce8c47b37bef94e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/67] fix: collect dependent methods and services of calls
 declared in error and validation definitions

---
 generator/code_generator.go | 59 +++++++++++++------------------------
 resolver/def.go             | 23 +++++++++++++++
 resolver/message.go         |  7 +++--
 3 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb04e6d..e0f6da0 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1584,53 +1584,34 @@ func (s *Service) dependentMethods(msg *resolver.Message) []*DependentMethod {
 	if msg.Rule == nil {
 		return nil
 	}
-	var ret []*DependentMethod
-	for _, varDef := range msg.Rule.DefSet.Definitions() {
-		if varDef.Expr == nil {
+	ret := s.dependentMethodsByDefinitions(msg.Rule.DefSet.Definitions())
+	for _, field := range msg.Fields {
+		if field.Rule == nil {
 			continue
 		}
-
-		expr := varDef.Expr
-		if expr.Call != nil {
-			if expr.Call.Method != nil {
-				method := expr.Call.Method
-				ret = append(ret, &DependentMethod{
-					Name: fmt.Sprintf("%s_%s", fullServiceName(method.Service), method.Name),
-					FQDN: "/" + method.FQDN(),
-				})
-			}
+		if field.Rule.Oneof == nil {
 			continue
 		}
-
-		for _, msgExpr := range varDef.MessageExprs() {
-			ret = append(ret, s.dependentMethods(msgExpr.Message)...)
-		}
+		ret = append(ret, s.dependentMethodsByDefinitions(field.Rule.Oneof.DefSet.Definitions())...)
 	}
-	for _, field := range msg.Fields {
-		if field.Rule == nil {
+	return ret
+}
+
+func (s *Service) dependentMethodsByDefinitions(defs resolver.VariableDefinitions) []*DependentMethod {
+	var ret []*DependentMethod
+	for _, varDef := range defs {
+		if varDef.Expr == nil {
 			continue
 		}
-		if field.Rule.Oneof == nil {
-			continue
+		if call := varDef.Expr.Call; call != nil && call.Method != nil {
+			ret = append(ret, &DependentMethod{
+				Name: fmt.Sprintf("%s_%s", fullServiceName(call.Method.Service), call.Method.Name),
+				FQDN: "/" + call.Method.FQDN(),
+			})
 		}
-		for _, varDef := range field.Rule.Oneof.DefSet.Definitions() {
-			if varDef.Expr == nil {
-				continue
-			}
-			expr := varDef.Expr
-			if expr.Call != nil {
-				if expr.Call.Method != nil {
-					method := expr.Call.Method
-					ret = append(ret, &DependentMethod{
-						Name: fmt.Sprintf("%s_%s", fullServiceName(method.Service), method.Name),
-						FQDN: "/" + method.FQDN(),
-					})
-				}
-				continue
-			}
-			for _, msgExpr := range varDef.MessageExprs() {
-				ret = append(ret, s.dependentMethods(msgExpr.Message)...)
-			}
+		ret = append(ret, s.dependentMethodsByDefinitions(varDef.ErrorDefinitions())...)
+		for _, msgExpr := range varDef.MessageExprs() {
+			ret = append(ret, s.dependentMethods(msgExpr.Message)...)
 		}
 	}
 	return ret
diff --git a/resolver/def.go b/resolver/def.go
index 7a6c677..9ce988f 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -194,6 +194,29 @@ func (detail *GRPCErrorDetail) MessageExprs() []*MessageExpr {
 	return append(detail.DefSet.MessageExprs(), detail.Messages.MessageExprs()...)
 }
 
+// ErrorDefinitions returns all the variable definitions declared in the error definitions ( including their details ) of this definition.
+func (def *VariableDefinition) ErrorDefinitions() VariableDefinitions {
+	if def == nil || def.Expr == nil {
+		return nil
+	}
+	var grpcErrs []*GRPCError
+	switch {
+	case def.Expr.Call != nil:
+		grpcErrs = def.Expr.Call.Errors
+	case def.Expr.Validation != nil:
+		grpcErrs = append(grpcErrs, def.Expr.Validation.Error)
+	}
+	var ret VariableDefinitions
+	for _, grpcErr := range grpcErrs {
+		ret = append(ret, grpcErr.DefSet.Definitions()...)
+		for _, detail := range grpcErr.Details {
+			ret = append(ret, detail.DefSet.Definitions()...)
+			ret = append(ret, detail.Messages.Definitions()...)
+		}
+	}
+	return ret
+}
+
 func (set *VariableDefinitionSet) ReferenceNames() []string {
 	var names []string
 	for _, def := range set.Definitions() {
diff --git a/resolver/message.go b/resolver/message.go
index bb7ab5d..3eb50c5 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -650,10 +650,13 @@ func dependServicesByDefinition(def *VariableDefinition, defMap map[*VariableDef
 	if expr == nil {
 		return nil
 	}
+	var ret []*Service
 	if expr.Call != nil {
-		return []*Service{expr.Call.Method.Service}
+		ret = append(ret, expr.Call.Method.Service)
+	}
+	for _, errDef := range def.ErrorDefinitions() {
+		ret = append(ret, dependServicesByDefinition(errDef, defMap)...)
 	}
-	var ret []*Service
 	for _, msgExpr := range def.MessageExprs() {
 		if msgExpr.Message != nil {
 			ret = append(ret, msgExpr.Message.dependServices(defMap)...)
-- 
2.43.0


From deb2340ff107699c18132301d0933d661852b5dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 03/67] fix: evaluate a definition only once even if it
 completes between the cache lookup and singleflight

---
 grpc/federation/cel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f884a0c..14356d2 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -379,6 +379,13 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	}
 	v.sgCache.mu.RUnlock()
 	ret, err, _ := v.sg.Do(name, func() (any, error) {
+		// Another goroutine may have finished the same evaluation between the lookup above and this call.
+		v.sgCache.mu.RLock()
+		cache, exists := v.sgCache.resultMap[name]
+		v.sgCache.mu.RUnlock()
+		if exists {
+			return cache.result, cache.err
+		}
 		ret, err := cb()
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
-- 
2.43.0


From bbad85c2c449153c2978119604db80b40cdce9f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 04/67] fix: log attributes of a scope are never written to the
 array shared with other scopes

---
 grpc/federation/log/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index 32f00c9..109ab96 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -3,6 +3,7 @@ package log
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -41,7 +42,8 @@ func Attrs(ctx context.Context) []slog.Attr {
 
 	ref.mu.RLock()
 	defer ref.mu.RUnlock()
-	return ref.attrs
+	// Cap the capacity so that appending to the returned value never writes to the array shared with other scopes.
+	return slices.Clip(ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0


From f2de6488aa532e6b05e00d267127a2285b93cb00 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 05/67] fix: report only an expired deadline as a timeout, and
 always with the method and timeout details

---
 grpc/federation/lib.go | 48 ++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 3a58c24..bdb5fc1 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -2,6 +2,7 @@ package federation
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"runtime/debug"
@@ -39,22 +40,47 @@ func WithTimeout[T any](ctx context.Context, method string, timeout time.Duratio
 	}()
 	select {
 	case <-ctx.Done():
-		status := grpcstatus.New(grpccodes.DeadlineExceeded, ctx.Err().Error())
-		withDetails, err := status.WithDetails(&errdetails.ErrorInfo{
-			Metadata: map[string]string{
-				"method":  method,
-				"timeout": timeout.String(),
-			},
-		})
-		if err != nil {
-			return nil, status.Err()
-		}
-		return nil, withDetails.Err()
+		return nil, contextDoneError(ctx.Err(), method, timeout)
 	case err := <-errch:
+		if err != nil && ctx.Err() != nil && isContextDoneError(err) {
+			// The callee noticed the end of the context before this function did.
+			return nil, contextDoneError(ctx.Err(), method, timeout)
+		}
 		return ret, err
 	}
 }
 
+func isContextDoneError(err error) bool {
+	if errors.Is(err, context.DeadlineExceeded) || errors.Is(err, context.Canceled) {
+		return true
+	}
+	switch grpcstatus.Code(err) {
+	case grpccodes.DeadlineExceeded, grpccodes.Canceled:
+		return true
+	default:
+		return false
+	}
+}
+
+// contextDoneError creates the error for the context which finished before the method.
+// Only the expiration of the deadline is reported as a timeout, the cancellation by the caller isn't.
+func contextDoneError(ctxErr error, method string, timeout time.Duration) error {
+	status := grpcstatus.FromContextError(ctxErr)
+	if status.Code() != grpccodes.DeadlineExceeded {
+		return status.Err()
+	}
+	withDetails, err := status.WithDetails(&errdetails.ErrorInfo{
+		Metadata: map[string]string{
+			"method":  method,
+			"timeout": timeout.String(),
+		},
+	})
+	if err != nil {
+		return status.Err()
+	}
+	return withDetails.Err()
+}
+
 type BackOff struct {
 	backoff.BackOff
 }
-- 
2.43.0


From 6bd25541483d16567a624f0684241697fc173d76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:06:11 +0000
Subject: [PATCH 06/67] fix: keep the error variable of concurrently failing
 calls apart, and treat errors without a gRPC status as Unknown

---
 grpc/federation/alias.go |  1 -
 grpc/federation/cel.go   | 66 +++++++++++++++++++++++++++++++++++++---
 grpc/federation/error.go |  6 ++++
 grpc/federation/lib.go   |  3 ++
 4 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/alias.go b/grpc/federation/alias.go
index 9c17c5e..f88d890 100644
--- a/grpc/federation/alias.go
+++ b/grpc/federation/alias.go
@@ -38,7 +38,6 @@ var (
 	Getenv                = os.Getenv
 	GRPCErrorf            = status.Errorf
 	NewGRPCStatus         = status.New
-	GRPCStatusFromError   = status.FromError
 	ErrorGroupWithContext = errgroup.WithContext
 	NewCELEnv             = cel.NewCustomEnv
 	NewCELVariable        = cel.Variable
diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 14356d2..214c123 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -369,6 +369,52 @@ type localValue interface {
 	getEvalValues(context.Context) map[string]any
 	setEnvOptValue(string, *cel.Type)
 	setEvalValue(string, any)
+	rootValue() *LocalValue
+}
+
+type grpcErrorScopeKey struct{}
+
+// grpcErrorScope keeps the value of the `error` variable for the evaluation of one definition,
+// because definitions which are evaluated concurrently share the same local value.
+type grpcErrorScope struct {
+	owner  *LocalValue
+	parent *grpcErrorScope
+	mu     sync.RWMutex
+	err    *grpcfedcel.Error
+}
+
+func withGRPCErrorScope(ctx context.Context, value localValue) context.Context {
+	return context.WithValue(ctx, grpcErrorScopeKey{}, &grpcErrorScope{
+		owner:  value.rootValue(),
+		parent: getGRPCErrorScope(ctx),
+	})
+}
+
+func getGRPCErrorScope(ctx context.Context) *grpcErrorScope {
+	scope, _ := ctx.Value(grpcErrorScopeKey{}).(*grpcErrorScope)
+	return scope
+}
+
+func (s *grpcErrorScope) set(err *grpcfedcel.Error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.err = err
+}
+
+func (s *grpcErrorScope) get() *grpcfedcel.Error {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.err
+}
+
+// setGRPCErrorValue sets the error which is visible from the context to values.
+func setGRPCErrorValue(ctx context.Context, value *LocalValue, values map[string]any) {
+	for scope := getGRPCErrorScope(ctx); scope != nil && scope.owner == value; scope = scope.parent {
+		if err := scope.get(); err != nil {
+			values["error"] = err
+			return
+		}
+	}
 }
 
 func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
@@ -423,9 +469,14 @@ func (v *LocalValue) getEvalValues(ctx context.Context) map[string]any {
 	for k, v := range v.evalValues {
 		ret[k] = v
 	}
+	setGRPCErrorValue(ctx, v, ret)
 	return ret
 }
 
+func (v *LocalValue) rootValue() *LocalValue {
+	return v
+}
+
 func (v *LocalValue) setEnvOptValue(name string, typ *cel.Type) {
 	v.envOpts = append(
 		v.envOpts,
@@ -475,6 +526,10 @@ func (v *MapIteratorValue) getEvalValues(ctx context.Context) map[string]any {
 	return ret
 }
 
+func (v *MapIteratorValue) rootValue() *LocalValue {
+	return v.localValue.rootValue()
+}
+
 func (v *MapIteratorValue) setEnvOptValue(name string, typ *cel.Type) {
 	v.envOpts = append(
 		v.envOpts,
@@ -514,7 +569,7 @@ type DefMap[T any, U any, V localValue] struct {
 
 func EvalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) error {
 	_, err := value.do(def.Name, func() (any, error) {
-		return nil, evalDef(ctx, value, def)
+		return nil, evalDef(withGRPCErrorScope(ctx, value), value, def)
 	})
 	return err
 }
@@ -823,10 +878,7 @@ func setCELProgramCache(ctx context.Context, cacheIndex int, program cel.Program
 }
 
 func SetGRPCError(ctx context.Context, value localValue, err error) {
-	stat, ok := grpcstatus.FromError(err)
-	if !ok {
-		return
-	}
+	stat, _ := GRPCStatusFromError(err)
 	grpcErr := &grpcfedcel.Error{
 		Code:    int32(stat.Code()), //nolint:gosec
 		Message: stat.Message(),
@@ -876,6 +928,10 @@ func SetGRPCError(ctx context.Context, value localValue, err error) {
 			grpcErr.CustomMessages = append(grpcErr.CustomMessages, anyValue)
 		}
 	}
+	if scope := getGRPCErrorScope(ctx); scope != nil && scope.owner == value.rootValue() {
+		scope.set(grpcErr)
+		return
+	}
 	value.lock()
 	value.setEvalValue("error", grpcErr)
 	value.unlock()
diff --git a/grpc/federation/error.go b/grpc/federation/error.go
index 466cbd8..9303386 100644
--- a/grpc/federation/error.go
+++ b/grpc/federation/error.go
@@ -38,6 +38,12 @@ func GoWithRecover(eg *errgroup.Group, fn func() (any, error)) {
 	})
 }
 
+// GRPCStatusFromError returns the status of err.
+// An error which is not created from a gRPC status is treated as an error with the Unknown code, as gRPC does.
+func GRPCStatusFromError(err error) (*grpcstatus.Status, bool) {
+	return grpcstatus.Convert(err), true
+}
+
 type ErrorWithLogAttrs struct {
 	err   error
 	level slog.Level
diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index bdb5fc1..b0ab910 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -120,6 +120,9 @@ type RetryParam[T any] struct {
 }
 
 func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
+	// The calls may go on after the caller has given up waiting for them,
+	// so the error of each attempt is visible only to the condition of the retry.
+	ctx = withGRPCErrorScope(ctx, param.Value)
 	var res *T
 	if err := backoff.Retry(func() (err error) {
 		result, err := param.Body()
-- 
2.43.0


From d81f6690e420aa8f9bc5efed3bd562910a15ee86 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 07/67] fix: evaluate the definitions of later error blocks in
 a scope of their own

Definitions evaluated concurrently in two error blocks of one call declared
the same variables twice, so the generated code did not compile.
---
 generator/templates/error_handler.go.tmpl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator/templates/error_handler.go.tmpl b/generator/templates/error_handler.go.tmpl
index f856eaf..615c0d2 100644
--- a/generator/templates/error_handler.go.tmpl
+++ b/generator/templates/error_handler.go.tmpl
@@ -31,11 +31,20 @@ type localStatusType struct {
 }
 stat, handleErr := func() (*localStatusType, error) {
 	var stat *grpcfed.Status
-	{{- range $grpcErrors }}
+	{{- range $i, $_ := $grpcErrors }}
 	{{- $logLevel := .LogLevelValue }}
 	{{- if .VariableDefinitionSet }}
+	{{- if $i }}
+	if _, err := func() (any, error) {
+		{{- template "evalDefSet" .VariableDefinitionSet }}
+		return nil, nil
+	}(); err != nil {
+		return nil, err
+	}
+	{{- else }}
 	{{- template "evalDefSet" .VariableDefinitionSet }}
 	{{- end }}
+	{{- end }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
 		Expr: `{{ .If.Expr }}`,
-- 
2.43.0


From 38bb72925e9700cc9e4e68cd0181654ae9db5fc0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 08/67] fix: a definition that panics is evaluated once and its
 panic is reported to every dependent

---
 grpc/federation/cel.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 214c123..9573757 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"reflect"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync"
@@ -432,7 +433,7 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 		if exists {
 			return cache.result, cache.err
 		}
-		ret, err := cb()
+		ret, err := recoverCall(cb)
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
 			result: ret,
@@ -444,6 +445,17 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	return ret, err
 }
 
+// recoverCall calls cb and returns its panic as an error,
+// so that the definition which panicked isn't evaluated again by the other definitions which depend on it.
+func recoverCall(cb func() (any, error)) (ret any, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = RecoverError(r, debug.Stack())
+		}
+	}()
+	return cb()
+}
+
 func (v *LocalValue) rlock() {
 	v.mu.RLock()
 }
-- 
2.43.0


From 8abbab4155d95b7011c93b663f766024f225980f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 09/67] fix: set up definitions in nested error blocks

Definitions of the error block of a call which itself is declared in an error
block, and of the error block of a call declared for a oneof field, were neither
grouped nor declared as variables, so that the generated code did not compile.
---
 resolver/def.go      | 37 +++++++++++++++++++++++++++++------
 resolver/message.go  | 19 ++----------------
 resolver/resolver.go | 46 +++++++++++++++++++++++++-------------------
 3 files changed, 59 insertions(+), 43 deletions(-)

diff --git a/resolver/def.go b/resolver/def.go
index 9ce988f..cefe19f 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -25,14 +25,36 @@ func (set *VariableDefinitionSet) DependencyGraph() *MessageDependencyGraph {
 	return set.Graph
 }
 
-func (e *GRPCError) DefinitionGroups() []VariableDefinitionGroup {
-	var ret []VariableDefinitionGroup
-	if e.DefSet != nil {
-		ret = append(ret, e.DefSet.DefinitionGroups()...)
+// allDefinitionGroups returns the groups of this set
+// and the groups of all the definitions declared in the error definitions of this set.
+func (set *VariableDefinitionSet) allDefinitionGroups() []VariableDefinitionGroup {
+	if set == nil {
+		return nil
+	}
+	ret := append([]VariableDefinitionGroup{}, set.DefinitionGroups()...)
+	for _, def := range set.Definitions() {
+		if def.Expr == nil {
+			continue
+		}
+		switch {
+		case def.Expr.Call != nil:
+			for _, err := range def.Expr.Call.Errors {
+				ret = append(ret, err.DefinitionGroups()...)
+			}
+		case def.Expr.Validation != nil:
+			if def.Expr.Validation.Error != nil {
+				ret = append(ret, def.Expr.Validation.Error.DefinitionGroups()...)
+			}
+		}
 	}
+	return ret
+}
+
+func (e *GRPCError) DefinitionGroups() []VariableDefinitionGroup {
+	ret := e.DefSet.allDefinitionGroups()
 	for _, detail := range e.Details {
-		ret = append(ret, detail.DefSet.DefinitionGroups()...)
-		ret = append(ret, detail.Messages.DefinitionGroups()...)
+		ret = append(ret, detail.DefSet.allDefinitionGroups()...)
+		ret = append(ret, detail.Messages.allDefinitionGroups()...)
 	}
 	return ret
 }
@@ -208,6 +230,9 @@ func (def *VariableDefinition) ErrorDefinitions() VariableDefinitions {
 	}
 	var ret VariableDefinitions
 	for _, grpcErr := range grpcErrs {
+		if grpcErr == nil {
+			continue
+		}
 		ret = append(ret, grpcErr.DefSet.Definitions()...)
 		for _, detail := range grpcErr.Details {
 			ret = append(ret, detail.DefSet.Definitions()...)
diff --git a/resolver/message.go b/resolver/message.go
index 3eb50c5..d2e3571 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -153,22 +153,7 @@ func (m *Message) VariableDefinitionGroups() []VariableDefinitionGroup {
 		return nil
 	}
 
-	ret := m.Rule.DefSet.DefinitionGroups()
-	for _, def := range m.Rule.DefSet.Definitions() {
-		if def.Expr == nil {
-			continue
-		}
-		switch {
-		case def.Expr.Call != nil:
-			for _, err := range def.Expr.Call.Errors {
-				ret = append(ret, err.DefinitionGroups()...)
-			}
-		case def.Expr.Validation != nil:
-			if def.Expr.Validation.Error != nil {
-				ret = append(ret, def.Expr.Validation.Error.DefinitionGroups()...)
-			}
-		}
-	}
+	ret := m.Rule.DefSet.allDefinitionGroups()
 	for _, field := range m.Fields {
 		if field.Rule == nil {
 			continue
@@ -176,7 +161,7 @@ func (m *Message) VariableDefinitionGroups() []VariableDefinitionGroup {
 		if field.Rule.Oneof == nil {
 			continue
 		}
-		ret = append(ret, field.Rule.Oneof.DefSet.DefinitionGroups()...)
+		ret = append(ret, field.Rule.Oneof.DefSet.allDefinitionGroups()...)
 	}
 	return ret
 }
diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..ecc6da7 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -5075,22 +5075,7 @@ func (r *Resolver) resolveMessageDependencies(ctx *context, files []*File) {
 		if msg.Rule == nil {
 			continue
 		}
-		setupVariableDefinitionSet(ctx, msg, msg.Rule.DefSet)
-		for defIdx, def := range msg.Rule.DefSet.Definitions() {
-			ctx := ctx.withDefIndex(defIdx)
-			expr := def.Expr
-			if expr == nil {
-				continue
-			}
-			switch {
-			case expr.Call != nil:
-				for _, grpcErr := range expr.Call.Errors {
-					r.resolveGRPCErrorMessageDependencies(ctx, msg, grpcErr)
-				}
-			case expr.Validation != nil:
-				r.resolveGRPCErrorMessageDependencies(ctx, msg, expr.Validation.Error)
-			}
-		}
+		r.resolveVariableDefinitionSetDependencies(ctx, msg, msg.Rule.DefSet)
 		for _, field := range msg.Fields {
 			if field.Rule == nil {
 				continue
@@ -5098,21 +5083,42 @@ func (r *Resolver) resolveMessageDependencies(ctx *context, files []*File) {
 			if field.Rule.Oneof == nil {
 				continue
 			}
-			setupVariableDefinitionSet(ctx, msg, field.Rule.Oneof.DefSet)
+			r.resolveVariableDefinitionSetDependencies(ctx, msg, field.Rule.Oneof.DefSet)
 		}
 	}
 	r.validateMessages(ctx, msgs)
 }
 
+// resolveVariableDefinitionSetDependencies resolve dependencies of the definition set
+// and of the definition sets declared in the error definitions of it.
+func (r *Resolver) resolveVariableDefinitionSetDependencies(ctx *context, msg *Message, defSet *VariableDefinitionSet) {
+	setupVariableDefinitionSet(ctx, msg, defSet)
+	for defIdx, def := range defSet.Definitions() {
+		ctx := ctx.withDefIndex(defIdx)
+		expr := def.Expr
+		if expr == nil {
+			continue
+		}
+		switch {
+		case expr.Call != nil:
+			for _, grpcErr := range expr.Call.Errors {
+				r.resolveGRPCErrorMessageDependencies(ctx, msg, grpcErr)
+			}
+		case expr.Validation != nil:
+			r.resolveGRPCErrorMessageDependencies(ctx, msg, expr.Validation.Error)
+		}
+	}
+}
+
 func (r *Resolver) resolveGRPCErrorMessageDependencies(ctx *context, msg *Message, grpcErr *GRPCError) {
 	if grpcErr == nil {
 		return
 	}
-	setupVariableDefinitionSet(ctx, msg, grpcErr.DefSet)
+	r.resolveVariableDefinitionSetDependencies(ctx, msg, grpcErr.DefSet)
 	for detIdx, detail := range grpcErr.Details {
 		ctx := ctx.withErrDetailIndex(detIdx)
-		setupVariableDefinitionSet(ctx, msg, detail.DefSet)
-		setupVariableDefinitionSet(ctx, msg, detail.Messages)
+		r.resolveVariableDefinitionSetDependencies(ctx, msg, detail.DefSet)
+		r.resolveVariableDefinitionSetDependencies(ctx, msg, detail.Messages)
 	}
 }
 
-- 
2.43.0


From 29d88caddba175f406959ff98fe49eecbb1a00dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:48:53 +0000
Subject: [PATCH 10/67] fix: report message dependency cycles which no other
 message refers to

---
 resolver/graph.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 31e3489..db840d6 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -31,9 +31,6 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 			roots = append(roots, node)
 		}
 	}
-	if len(roots) == 0 {
-		return nil
-	}
 	sort.Slice(roots, func(i, j int) bool {
 		return roots[i].Message.Name < roots[j].Message.Name
 	})
@@ -42,9 +39,42 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		ctx.addError(err)
 		return nil
 	}
+	// A message which is not reachable from any root is a part of a cycle or depended on by a cycle.
+	reachable := reachableAllMessageGraphNodes(roots)
+	for _, msg := range msgs {
+		node, exists := msgToNode[msg]
+		if !exists {
+			continue
+		}
+		if _, exists := reachable[node]; exists {
+			continue
+		}
+		if err := validateAllMessageGraphNode(node); err != nil {
+			ctx.addError(err)
+			return nil
+		}
+	}
+	if len(roots) == 0 {
+		return nil
+	}
 	return graph
 }
 
+func reachableAllMessageGraphNodes(roots []*AllMessageDependencyGraphNode) map[*AllMessageDependencyGraphNode]struct{} {
+	reachable := make(map[*AllMessageDependencyGraphNode]struct{})
+	nodes := append([]*AllMessageDependencyGraphNode{}, roots...)
+	for len(nodes) != 0 {
+		node := nodes[len(nodes)-1]
+		nodes = nodes[:len(nodes)-1]
+		if _, exists := reachable[node]; exists {
+			continue
+		}
+		reachable[node] = struct{}{}
+		nodes = append(nodes, node.Children...)
+	}
+	return reachable
+}
+
 func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
 	messages := []*Message{n.Message}
 	for _, child := range n.Children {
-- 
2.43.0


From da22af4ced14686abf07b219b4a86297185855fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 11/67] fix: give unnamed definitions of several error blocks
 or oneof alternatives different names

---
 resolver/context.go  | 21 +++++++++++++++++++++
 resolver/resolver.go |  8 ++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/resolver/context.go b/resolver/context.go
index d6742a0..01ccefd 100644
--- a/resolver/context.go
+++ b/resolver/context.go
@@ -1,5 +1,7 @@
 package resolver
 
+import "fmt"
+
 type context struct {
 	errorBuilder *errorBuilder
 	allWarnings  *allWarnings
@@ -10,6 +12,12 @@ type context struct {
 	defIdx       int
 	errDetailIdx int
 	variableMap  map[string]*VariableDefinition
+	autoNameMap  map[autoNameKey]int
+}
+
+type autoNameKey struct {
+	msg  *Message
+	name string
 }
 
 type allWarnings struct {
@@ -21,6 +29,7 @@ func newContext() *context {
 		errorBuilder: &errorBuilder{},
 		allWarnings:  &allWarnings{},
 		variableMap:  make(map[string]*VariableDefinition),
+		autoNameMap:  make(map[autoNameKey]int),
 	}
 }
 
@@ -36,6 +45,7 @@ func (c *context) clone() *context {
 
 		errDetailIdx: c.errDetailIdx,
 		variableMap:  c.variableMap,
+		autoNameMap:  c.autoNameMap,
 	}
 }
 
@@ -87,6 +97,17 @@ func (c *context) variableDef(name string) *VariableDefinition {
 	return c.variableMap[name]
 }
 
+// autoVariableName returns the variable name for an unnamed definition.
+// If the name is already used in the message, returns the unique name based on it.
+func (c *context) autoVariableName(name string) string {
+	key := autoNameKey{msg: c.msg, name: name}
+	c.autoNameMap[key]++
+	if n := c.autoNameMap[key]; n > 1 {
+		return fmt.Sprintf("%s_%d", name, n)
+	}
+	return name
+}
+
 func (c *context) file() *File {
 	return c.fileRef
 }
diff --git a/resolver/resolver.go b/resolver/resolver.go
index ecc6da7..f8f69b8 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2713,7 +2713,7 @@ func (r *Resolver) resolveGRPCError(ctx *context, def *federation.GRPCError, bui
 	for idx, errDef := range def.GetDef() {
 		name := errDef.GetName()
 		if name == "" {
-			n := fmt.Sprintf("_def%d_def%d", ctx.defIndex(), idx)
+			n := ctx.autoVariableName(fmt.Sprintf("_def%d_def%d", ctx.defIndex(), idx))
 			errDef.Name = &n
 		} else {
 			if err := r.validateName(name); err != nil {
@@ -2776,7 +2776,7 @@ func (r *Resolver) resolveGRPCErrorDetails(ctx *context, details []*federation.G
 		for idx, errDetailDef := range detail.GetDef() {
 			name := errDetailDef.GetName()
 			if name == "" {
-				n := fmt.Sprintf("_def%d_err_detail%d_def%d", ctx.defIndex(), ctx.errDetailIndex(), idx)
+				n := ctx.autoVariableName(fmt.Sprintf("_def%d_err_detail%d_def%d", ctx.defIndex(), ctx.errDetailIndex(), idx))
 				errDetailDef.Name = &n
 			} else {
 				if err := r.validateName(name); err != nil {
@@ -2816,7 +2816,7 @@ func (r *Resolver) resolveGRPCDetailMessages(ctx *context, messages []*federatio
 	}
 	msgs := make([]*federation.VariableDefinition, 0, len(messages))
 	for idx, message := range messages {
-		name := fmt.Sprintf("_def%d_err_detail%d_msg%d", ctx.defIndex(), ctx.errDetailIndex(), idx)
+		name := ctx.autoVariableName(fmt.Sprintf("_def%d_err_detail%d_msg%d", ctx.defIndex(), ctx.errDetailIndex(), idx))
 		msgs = append(msgs, &federation.VariableDefinition{
 			Name: &name,
 			Expr: &federation.VariableDefinition_Message{
@@ -3003,7 +3003,7 @@ func (r *Resolver) resolveFieldOneofRule(ctx *context, field *Field, def *federa
 	for idx, oneofDef := range def.GetDef() {
 		name := oneofDef.GetName()
 		if name == "" {
-			n := fmt.Sprintf("_oneof_def%d", idx)
+			n := ctx.autoVariableName(fmt.Sprintf("_oneof_def%d", idx))
 			oneofDef.Name = &n
 		} else {
 			if err := r.validateName(name); err != nil {
-- 
2.43.0


From 1ccf8f873b9bfd745fb0e2a74874dd0f910cef9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 12/67] fix: reject repeated values where a single value is
 required

---
 resolver/resolver.go | 53 ++++++++++++++++++++++++++------------------
 resolver/types.go    | 18 +++++++++++++++
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index f8f69b8..cd6afc7 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1387,7 +1387,7 @@ func (r *Resolver) resolveAutoBindFields(ctx *context, msg *Message, builder *so
 		if typ == nil {
 			continue
 		}
-		if typ.Kind != types.Message {
+		if !typ.isSingular(types.Message) {
 			continue
 		}
 		for _, field := range typ.Message.Fields {
@@ -2176,7 +2176,7 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 			return nil
 		}
 		if ifValue.Out != nil {
-			if ifValue.Out.Kind != types.Bool {
+			if !ifValue.Out.isSingular(types.Bool) {
 				ctx.addError(
 					ErrWithLocation(
 						fmt.Sprintf(`return value of "if" must be bool type but got %s type`, ifValue.Out.Kind.ToString()),
@@ -2220,7 +2220,7 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 			return nil
 		}
 		if validationIfValue.Out != nil {
-			if validationIfValue.Out.Kind != types.Bool {
+			if !validationIfValue.Out.isSingular(types.Bool) {
 				ctx.addError(
 					ErrWithLocation(
 						fmt.Sprintf(`return value of "if" must be bool type but got %s type`, validationIfValue.Out.Kind.ToString()),
@@ -2241,7 +2241,7 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 			return nil
 		}
 		if msgValue.Out != nil {
-			if msgValue.Out.Kind != types.String {
+			if !msgValue.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						fmt.Sprintf(`return value of "message" must be string type but got %s type`, msgValue.Out.Kind.ToString()),
@@ -3763,7 +3763,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 					continue
 				}
 				if arg.Value.CEL != nil && arg.Value.Inline {
-					if fieldType.Kind != types.Message {
+					if !fieldType.isSingular(types.Message) {
 						ctx.addError(
 							ErrWithLocation(
 								"inline value is not message type",
@@ -3877,7 +3877,7 @@ func (r *Resolver) resolveMessageCELValues(ctx *context, env *cel.Env, msg *Mess
 					)
 				}
 				if oneof.If.Out != nil {
-					if oneof.If.Out.Kind != types.Bool {
+					if !oneof.If.Out.isSingular(types.Bool) {
 						ctx.addError(
 							ErrWithLocation(
 								fmt.Sprintf(`return value of "if" must be bool type but got %s type`, oneof.If.Out.Kind.ToString()),
@@ -3915,7 +3915,7 @@ func (r *Resolver) resolveVariableDefinitionCELValues(ctx *context, env *cel.Env
 			)
 		}
 		if def.If.Out != nil {
-			if def.If.Out.Kind != types.Bool {
+			if !def.If.Out.isSingular(types.Bool) {
 				ctx.addError(
 					ErrWithLocation(
 						fmt.Sprintf(`return value of "if" must be bool type but got %s type`, def.If.Out.Kind.ToString()),
@@ -4012,6 +4012,15 @@ func (r *Resolver) resolveMapExprCELValues(ctx *context, env *cel.Env, expr *Map
 	if typ == nil {
 		return nil
 	}
+	if typ.Repeated {
+		ctx.addError(
+			ErrWithLocation(
+				`map "by" value must not be repeated type`,
+				builder.WithBy().Location(),
+			),
+		)
+		return nil
+	}
 	varType := typ.Clone()
 	varType.Repeated = true
 	return varType
@@ -4064,7 +4073,7 @@ func (r *Resolver) resolveCallExprCELValues(ctx *context, env *cel.Env, expr *Ca
 						),
 					)
 				}
-				if arg.If.Out != nil && arg.If.Out.Kind != types.Bool {
+				if arg.If.Out != nil && !arg.If.Out.isSingular(types.Bool) {
 					ctx.addError(
 						ErrWithLocation(
 							"if must always return a boolean value",
@@ -4089,7 +4098,7 @@ func (r *Resolver) resolveCallExprCELValues(ctx *context, env *cel.Env, expr *Ca
 				),
 			)
 		}
-		if retry.If.Out != nil && retry.If.Out.Kind != types.Bool {
+		if retry.If.Out != nil && !retry.If.Out.isSingular(types.Bool) {
 			ctx.addError(
 				ErrWithLocation(
 					"if must always return a boolean value",
@@ -4145,7 +4154,7 @@ func (r *Resolver) resolveGRPCErrorCELValues(ctx *context, env *cel.Env, grpcErr
 			),
 		)
 	}
-	if grpcErr.If.Out != nil && grpcErr.If.Out.Kind != types.Bool {
+	if grpcErr.If.Out != nil && !grpcErr.If.Out.isSingular(types.Bool) {
 		ctx.addError(
 			ErrWithLocation(
 				"if must always return a boolean value",
@@ -4163,8 +4172,8 @@ func (r *Resolver) resolveGRPCErrorCELValues(ctx *context, env *cel.Env, grpcErr
 			)
 		}
 		if grpcErr.IgnoreAndResponse.Out != nil && response != nil {
-			msg := grpcErr.IgnoreAndResponse.Out.Message
-			if msg == nil || msg != response {
+			out := grpcErr.IgnoreAndResponse.Out
+			if !out.isSingular(types.Message) || out.Message != response {
 				ctx.addError(
 					ErrWithLocation(
 						fmt.Sprintf(`value must be %q type`, response.FQDN()),
@@ -4183,7 +4192,7 @@ func (r *Resolver) resolveGRPCErrorCELValues(ctx *context, env *cel.Env, grpcErr
 				),
 			)
 		}
-		if grpcErr.Message.Out != nil && grpcErr.Message.Out.Kind != types.String {
+		if grpcErr.Message.Out != nil && !grpcErr.Message.Out.isSingular(types.String) {
 			ctx.addError(
 				ErrWithLocation(
 					"message must always return a string value",
@@ -4210,7 +4219,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 			),
 		)
 	}
-	if detail.If.Out != nil && detail.If.Out.Kind != types.Bool {
+	if detail.If.Out != nil && !detail.If.Out.isSingular(types.Bool) {
 		ctx.addError(
 			ErrWithLocation(
 				"if must always return a boolean value",
@@ -4227,7 +4236,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 				),
 			)
 		}
-		if by.Out != nil && by.Out.Kind != types.Message {
+		if by.Out != nil && !by.Out.isSingular(types.Message) {
 			ctx.addError(
 				ErrWithLocation(
 					`"by" must always return a message value`,
@@ -4250,7 +4259,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 					),
 				)
 			}
-			if violation.Type.Out != nil && violation.Type.Out.Kind != types.String {
+			if violation.Type.Out != nil && !violation.Type.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						"type must always return a string value",
@@ -4266,7 +4275,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 					),
 				)
 			}
-			if violation.Subject.Out != nil && violation.Subject.Out.Kind != types.String {
+			if violation.Subject.Out != nil && !violation.Subject.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						"subject must always return a string value",
@@ -4282,7 +4291,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 					),
 				)
 			}
-			if violation.Description.Out != nil && violation.Description.Out.Kind != types.String {
+			if violation.Description.Out != nil && !violation.Description.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						"description must always return a string value",
@@ -4303,7 +4312,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 					),
 				)
 			}
-			if violation.Field.Out != nil && violation.Field.Out.Kind != types.String {
+			if violation.Field.Out != nil && !violation.Field.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						"field must always return a string value",
@@ -4319,7 +4328,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 					),
 				)
 			}
-			if violation.Description.Out != nil && violation.Description.Out.Kind != types.String {
+			if violation.Description.Out != nil && !violation.Description.Out.isSingular(types.String) {
 				ctx.addError(
 					ErrWithLocation(
 						"description must always return a string value",
@@ -4339,7 +4348,7 @@ func (r *Resolver) resolveGRPCErrorDetailCELValues(ctx *context, env *cel.Env, d
 				),
 			)
 		}
-		if message.Message.Out != nil && message.Message.Out.Kind != types.String {
+		if message.Message.Out != nil && !message.Message.Out.isSingular(types.String) {
 			ctx.addError(
 				ErrWithLocation(
 					"message must always return a string value",
@@ -4364,7 +4373,7 @@ func (r *Resolver) resolveEnumExprCELValues(ctx *context, env *cel.Env, expr *En
 		return enumType
 	}
 	fromType := expr.By.Out
-	if fromType.Kind != types.Enum && !fromType.IsEnumSelector() {
+	if !fromType.isSingular(types.Enum) && (fromType.Repeated || !fromType.IsEnumSelector()) {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf(
diff --git a/resolver/types.go b/resolver/types.go
index 0789d18..e5bd4f4 100644
--- a/resolver/types.go
+++ b/resolver/types.go
@@ -428,6 +428,24 @@ func (t *Type) Clone() *Type {
 	}
 }
 
+// isSingular reports whether the type is the specified kind and not repeated.
+func (t *Type) isSingular(kind types.Kind) bool {
+	return t.Kind == kind && !t.Repeated
+}
+
+// isMap reports whether the type is a map. The type of a map field is repeated, but the type of a map value is not.
+func (t *Type) isMap() bool {
+	return t.Message != nil && t.Message.IsMapEntry
+}
+
+// declaredName returns the name of the kind with the label if the type is repeated.
+func (t *Type) declaredName() string {
+	if t.Repeated {
+		return "repeated " + t.Kind.ToString()
+	}
+	return t.Kind.ToString()
+}
+
 func (t *Type) IsNumber() bool {
 	switch t.Kind {
 	case types.Double,
-- 
2.43.0


From 5d6d8a00e8bfd22395708ebffb4b02df74c398c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 13/67] fix: reject assignments between a repeated value and a
 single field

---
 resolver/resolver.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index cd6afc7..aa0dfec 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1582,8 +1582,20 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 		return
 	}
 	toType := toField.Type
-	if toType.Kind == types.Message {
-		if fromType.Message == nil || toType.Message == nil {
+	if isDifferentCardinality(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.declaredName(), fromType.declaredName(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
+	if toType.Kind == types.Message && fromType.Message != nil {
+		if toType.Message == nil {
 			return
 		}
 		if fromType.IsNumberWrapper() && toType.IsNumberWrapper() {
@@ -1733,6 +1745,18 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 		return
 	}
 	toType := toField.Type
+	if isDifferentCardinality(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.declaredName(), fromType.declaredName(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
 	if fromType.Kind == types.Message {
 		if fromType.Message.IsEnumSelector() && toType.Kind == types.Enum {
 			r.validateBindFieldEnumSelectorType(ctx, fromType.Message, toField, builder)
@@ -5313,10 +5337,22 @@ func (r *Resolver) trimPackage(pkg *Package, name string) string {
 	return strings.TrimPrefix(name, fmt.Sprintf("%s.", pkg.Name))
 }
 
+// isDifferentCardinality reports whether only one of the two types is repeated.
+// Null can be assigned to both of them, and the type of a map field is repeated although the type of a map value is not.
+func isDifferentCardinality(from, to *Type) bool {
+	if from.IsNull || from.isMap() || to.isMap() {
+		return false
+	}
+	return from.Repeated != to.Repeated
+}
+
 func isDifferentType(from, to *Type) bool {
 	if from == nil || to == nil {
 		return false
 	}
+	if isDifferentCardinality(from, to) {
+		return true
+	}
 	if from.IsNumber() && to.IsNumber() {
 		return false
 	}
-- 
2.43.0


From 7074ab4213d113c2f1fc508ee8dce62e1c019e1c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 14/67] fix: validate the type of "by" of a oneof field

---
 resolver/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index aa0dfec..e28f166 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1568,6 +1568,9 @@ func (r *Resolver) validateMessageFields(ctx *context, msg *Message, builder *so
 				r.validateBindFieldType(ctx, rule.Value.Type(), field, builder)
 			}
 		}
+		if rule.Oneof != nil && rule.Oneof.By != nil {
+			r.validateBindFieldType(ctx, rule.Oneof.By.Out, field, builder)
+		}
 		for _, alias := range rule.Aliases {
 			r.validateBindFieldType(ctx, alias.Type, field, builder)
 		}
-- 
2.43.0


From fc917f1950f78ff83df46a59dc79d6d4c551934c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 15/67] fix: allow "default" once per oneof, not once per
 message

---
 resolver/resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index e28f166..a7471fb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1329,7 +1329,7 @@ func (r *Resolver) resolveFieldRules(ctx *context, msg *Message, builder *source
 }
 
 func (r *Resolver) validateFieldsOneofRule(ctx *context, msg *Message, builder *source.MessageBuilder) {
-	var usedDefault bool
+	usedDefault := make(map[*Oneof]struct{})
 	for _, field := range msg.Fields {
 		if field.Rule == nil {
 			continue
@@ -1340,7 +1340,7 @@ func (r *Resolver) validateFieldsOneofRule(ctx *context, msg *Message, builder *
 		}
 		builder := builder.WithField(field.Name).WithOption().WithOneOf()
 		if oneof.Default {
-			if usedDefault {
+			if _, exists := usedDefault[field.Oneof]; exists {
 				ctx.addError(
 					ErrWithLocation(
 						`"default" found multiple times in the "grpc.federation.field.oneof". "default" can only be specified once per oneof`,
@@ -1348,7 +1348,7 @@ func (r *Resolver) validateFieldsOneofRule(ctx *context, msg *Message, builder *
 					),
 				)
 			} else {
-				usedDefault = true
+				usedDefault[field.Oneof] = struct{}{}
 			}
 		}
 		if !oneof.Default && oneof.If == nil {
-- 
2.43.0


From 4d97231df9c3d4f6814256509802ecc784c1240d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 16/67] fix: reject message arguments whose message or enum
 type differs between the uses

---
 resolver/resolver.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index a7471fb..56e58cb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3773,7 +3773,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 					continue
 				}
 				if typ, exists := evaluatedArgNameMap[arg.Name]; exists {
-					if isDifferentType(typ, fieldType) {
+					if r.isDifferentArgumentType(typ, fieldType) {
 						ctx.addError(
 							ErrWithLocation(
 								fmt.Sprintf(
@@ -3803,7 +3803,7 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 					}
 					for _, field := range fieldType.Message.Fields {
 						if typ, exists := evaluatedArgNameMap[field.Name]; exists {
-							if isDifferentType(typ, field.Type) {
+							if r.isDifferentArgumentType(typ, field.Type) {
 								ctx.addError(
 									ErrWithLocation(
 										fmt.Sprintf(
@@ -3835,6 +3835,26 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 	return fields
 }
 
+// isDifferentArgumentType reports whether the value of the `from` type cannot be passed as the message argument of the `to` type.
+func (r *Resolver) isDifferentArgumentType(to, from *Type) bool {
+	if isDifferentType(to, from) {
+		return true
+	}
+	switch {
+	case from == nil || to == nil:
+		return false
+	case from.isMap() || to.isMap():
+		return false
+	case from.IsNumberWrapper() && to.IsNumberWrapper():
+		return false
+	case from.Message != nil && to.Message != nil:
+		return from.Message.FQDN() != to.Message.FQDN() && !r.findMessageAliasName(from.Message, to.Message)
+	case from.Enum != nil && to.Enum != nil:
+		return from.Enum.FQDN() != to.Enum.FQDN() && !r.findEnumAliasName(from.Enum, to.Enum)
+	}
+	return false
+}
+
 func (r *Resolver) validateMessageDependencyArgumentName(ctx *context, argNameMap map[string]struct{}, def *VariableDefinition) {
 	for _, msgExpr := range def.MessageExprs() {
 		curDepArgNameMap := make(map[string]struct{})
-- 
2.43.0


From fe0822442a65f0b963147442fb5dd814457667a2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 17/67] fix: do not panic if the CEL environment cannot be
 extended

---
 resolver/resolver.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 56e58cb..167e6e9 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3911,9 +3911,18 @@ func (r *Resolver) resolveMessageCELValues(ctx *context, env *cel.Env, msg *Mess
 			}
 		}
 		if field.Rule.Oneof != nil {
-			fieldEnv, _ := env.Extend()
 			oneof := field.Rule.Oneof
 			oneofBuilder := fieldBuilder.WithOneOf()
+			fieldEnv, err := env.Extend()
+			if err != nil {
+				ctx.addError(
+					ErrWithLocation(
+						fmt.Sprintf(`failed to extend cel.Env from variables of messages: %s`, err.Error()),
+						oneofBuilder.Location(),
+					),
+				)
+				continue
+			}
 			if oneof.If != nil {
 				if err := r.resolveCELValue(ctx, fieldEnv, oneof.If); err != nil {
 					ctx.addError(
@@ -4052,6 +4061,7 @@ func (r *Resolver) resolveMapExprCELValues(ctx *context, env *cel.Env, expr *Map
 					builder.WithIteratorSource().Location(),
 				),
 			)
+			return nil
 		}
 		mapEnv = newEnv
 	}
@@ -4131,9 +4141,19 @@ func (r *Resolver) resolveCallExprCELValues(ctx *context, env *cel.Env, expr *Ca
 			}
 		}
 	}
-	grpcErrEnv, _ := env.Extend(
+	typ := NewMessageType(expr.Method.Response, false)
+	grpcErrEnv, err := env.Extend(
 		cel.Variable("error", cel.ObjectType("grpc.federation.private.Error")),
 	)
+	if err != nil {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(`failed to extend cel.Env from variables of messages: %s`, err.Error()),
+				builder.Location(),
+			),
+		)
+		return typ
+	}
 	if expr.Retry != nil {
 		retryBuilder := builder.WithRetry()
 		retry := expr.Retry
@@ -4157,7 +4177,7 @@ func (r *Resolver) resolveCallExprCELValues(ctx *context, env *cel.Env, expr *Ca
 	for idx, grpcErr := range expr.Errors {
 		r.resolveGRPCErrorCELValues(ctx, grpcErrEnv, grpcErr, expr.Method.Response, builder.WithError(idx))
 	}
-	return NewMessageType(expr.Method.Response, false)
+	return typ
 }
 
 func (r *Resolver) resolveMessageExprCELValues(ctx *context, env *cel.Env, expr *MessageExpr, builder *source.MessageExprOptionBuilder) *Type {
-- 
2.43.0


From 961db4c23cd23ebfa76672d253e6b7ca115d6478 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 18/67] fix: reject enum values for other fields and other
 values for enum request fields

---
 resolver/resolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 167e6e9..f93b149 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1644,7 +1644,11 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 			return
 		}
 	}
-	if toType.Kind == types.Enum {
+	if toType.Kind == types.Enum && !fromType.Repeated && (fromType.IsNumber() || fromType.IsEnumSelector()) {
+		// The value of enum in CEL is a number.
+		return
+	}
+	if toType.Kind == types.Enum && fromType.Kind == types.Enum {
 		if fromType.Enum == nil || toType.Enum == nil {
 			return
 		}
@@ -1820,7 +1824,7 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 			return
 		}
 	}
-	if fromType.Kind == types.Enum {
+	if fromType.Kind == types.Enum && toType.Kind == types.Enum {
 		if fromType.Enum == nil || toType.Enum == nil {
 			return
 		}
-- 
2.43.0


From 8e8a71e182bd69da173e7618b8709661b3023067 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 19/67] fix: do not recurse endlessly if a duplicate name is
 mentioned in its own definition

---
 resolver/graph.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index db840d6..dd7a215 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -360,16 +360,9 @@ func setupVariableDependencyByReferenceName(nodes []*MessageDependencyGraphNode)
 	nameToNode := make(map[string]*MessageDependencyGraphNode)
 	for _, node := range nodes {
 		def := node.VariableDefinition
-		if def.Name != "" {
-			nameToNode[def.Name] = node
-		}
-
 		refs := def.ReferenceNames()
-		if len(refs) == 0 {
-			continue
-		}
 		var iterName string
-		if def.Expr.Map != nil && def.Expr.Map.Iterator != nil {
+		if len(refs) != 0 && def.Expr.Map != nil && def.Expr.Map.Iterator != nil {
 			iterName = def.Expr.Map.Iterator.Name
 		}
 		for _, ref := range refs {
@@ -391,6 +384,10 @@ func setupVariableDependencyByReferenceName(nodes []*MessageDependencyGraphNode)
 				node.ParentMap[refNode] = struct{}{}
 			}
 		}
+		// A definition never refers to itself, so its name is registered after the references are resolved.
+		if def.Name != "" {
+			nameToNode[def.Name] = node
+		}
 	}
 }
 
-- 
2.43.0


From 1927a7723f01b1a192776003df218a1256fde0d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:45:45 +0000
Subject: [PATCH 20/67] fix: reject nested lists, which the generated code
 cannot represent

---
 resolver/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index f93b149..75e39d2 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -4914,6 +4914,9 @@ func (r *Resolver) fromCELType(ctx *context, typ *cel.Type) (*Type, error) {
 		if err != nil {
 			return nil, err
 		}
+		if typ.Repeated {
+			return nil, errors.New("nested list type is unsupported")
+		}
 		typ = typ.Clone()
 		typ.Repeated = true
 		return typ, nil
-- 
2.43.0


From 6b6efdcbefe7ed32ffda7f7d85bec1e52ea59a0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 21/67] fix: do not let CEL functions of the same name hide
 each other

---
 grpc/federation/cel/bind.go | 65 ++++++++++++++++++++++++-------------
 resolver/cel.go             | 16 +++++----
 2 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/grpc/federation/cel/bind.go b/grpc/federation/cel/bind.go
index 030d404..fa4c171 100644
--- a/grpc/federation/cel/bind.go
+++ b/grpc/federation/cel/bind.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/ast"
+	"github.com/google/cel-go/common/decls"
 	"github.com/google/cel-go/common/types/ref"
 )
 
@@ -25,20 +26,7 @@ func BindFunction(name string, opts ...BindFunctionOpt) []cel.EnvOption {
 		celOpts = append(celOpts, opt.FunctionOpt)
 	}
 	return []cel.EnvOption{
-		cel.Macros(cel.ReceiverVarArgMacro(funcName, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
-			sel := toSelectorName(target)
-			fqdn := funcName
-			if sel != "" {
-				fqdn = sel + "." + funcName
-			}
-			var argsWithCtx []ast.Expr
-			if len(args) > 0 && args[0].AsIdent() == ContextVariableName {
-				argsWithCtx = args
-			} else {
-				argsWithCtx = append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
-			}
-			return mef.NewCall(fqdn, argsWithCtx...), nil
-		})),
+		contextMacro(funcName),
 		cel.Function(name, celOpts...),
 	}
 }
@@ -49,17 +37,50 @@ func BindMemberFunction(name string, opts ...BindMemberFunctionOpt) []cel.EnvOpt
 		celOpts = append(celOpts, opt.FunctionOpt)
 	}
 	return []cel.EnvOption{
-		cel.Macros(cel.ReceiverVarArgMacro(name, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
-			var argsWithCtx []ast.Expr
+		contextMacro(name),
+		cel.Function(name, celOpts...),
+	}
+}
+
+// contextMacro returns the macro which passes the context value to the bound functions named funcName.
+// The environment has at most one macro per name, so it serves all functions of that name, global and member ones,
+// and leaves the calls to the functions which do not take the context value as they are.
+func contextMacro(funcName string) cel.EnvOption {
+	return func(env *cel.Env) (*cel.Env, error) {
+		return cel.Macros(cel.ReceiverVarArgMacro(funcName, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
 			if len(args) > 0 && args[0].AsIdent() == ContextVariableName {
-				argsWithCtx = args
-			} else {
-				argsWithCtx = append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
+				return nil, nil
 			}
-			return mef.NewMemberCall(name, target, argsWithCtx...), nil
-		})),
-		cel.Function(name, celOpts...),
+			argsWithCtx := append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
+			if sel := toSelectorName(target); sel != "" {
+				fqdn := sel + "." + funcName
+				for _, candidate := range env.Container.ResolveCandidateNames(fqdn) {
+					fn, exists := env.Functions()[candidate]
+					if !exists {
+						continue
+					}
+					if !takesContext(fn, 0) {
+						return nil, nil
+					}
+					return mef.NewCall(fqdn, argsWithCtx...), nil
+				}
+			}
+			if fn, exists := env.Functions()[funcName]; exists && takesContext(fn, 1) {
+				return mef.NewMemberCall(funcName, target, argsWithCtx...), nil
+			}
+			return nil, nil
+		}))(env)
+	}
+}
+
+// takesContext whether there is an overload of the function whose argument at argIdx is the context value.
+func takesContext(fn *decls.FunctionDecl, argIdx int) bool {
+	for _, overload := range fn.OverloadDecls() {
+		if args := overload.ArgTypes(); len(args) > argIdx && args[argIdx].TypeName() == ContextTypeName {
+			return true
+		}
 	}
+	return false
 }
 
 func OverloadFunc(name string, args []*cel.Type, result *cel.Type, cb func(ctx context.Context, values ...ref.Val) ref.Val) BindFunctionOpt {
diff --git a/resolver/cel.go b/resolver/cel.go
index 3c1fe7c..61724f3 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -1,6 +1,7 @@
 package resolver
 
 import (
+	pkgcontext "context"
 	"fmt"
 	"strings"
 
@@ -279,17 +280,18 @@ func (f *CELFunction) toSignatureID(t []*Type) string {
 func (plugin *CELPlugin) CompileOptions() []cel.EnvOption {
 	var opts []cel.EnvOption
 	for _, fn := range plugin.Functions {
-		var (
-			overload cel.FunctionOpt
-			bindFunc = cel.FunctionBinding(func(args ...ref.Val) ref.Val { return nil })
-		)
 		for _, sig := range fn.Signatures() {
 			if fn.Receiver != nil {
-				overload = cel.MemberOverload(sig.ID, sig.Args, sig.Return, bindFunc)
+				opts = append(opts, grpcfedcel.BindMemberFunction(
+					fn.Name,
+					grpcfedcel.MemberOverloadFunc(sig.ID, sig.Args[0], sig.Args[1:], sig.Return, func(_ pkgcontext.Context, _ ref.Val, _ ...ref.Val) ref.Val { return nil }),
+				)...)
 			} else {
-				overload = cel.Overload(sig.ID, sig.Args, sig.Return, bindFunc)
+				opts = append(opts, grpcfedcel.BindFunction(
+					fn.Name,
+					grpcfedcel.OverloadFunc(sig.ID, sig.Args, sig.Return, func(_ pkgcontext.Context, _ ...ref.Val) ref.Val { return nil }),
+				)...)
 			}
-			opts = append(opts, cel.Function(fn.Name, overload))
 		}
 	}
 	return opts
-- 
2.43.0


From 60c6a86113e51c68bdfad5bf9213a888755eb174 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 22/67] fix: accept plugin functions that return an enum

---
 resolver/cel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resolver/cel.go b/resolver/cel.go
index 61724f3..93fa50e 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -280,7 +280,12 @@ func (f *CELFunction) toSignatureID(t []*Type) string {
 func (plugin *CELPlugin) CompileOptions() []cel.EnvOption {
 	var opts []cel.EnvOption
 	for _, fn := range plugin.Functions {
+		ret := ToCELType(fn.Return)
 		for _, sig := range fn.Signatures() {
+			if !sig.Return.IsExactType(ret) {
+				// overloads that differ only in the type of the return value collide.
+				continue
+			}
 			if fn.Receiver != nil {
 				opts = append(opts, grpcfedcel.BindMemberFunction(
 					fn.Name,
-- 
2.43.0


From 0af9ff567cce742f6edafbb710668aad88aaff30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 23/67] fix: make the format function of strings available
 beside that of times

---
 grpc/federation/cel/strings.go | 36 ++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 8b7e164..9ea204d 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -4,11 +4,13 @@ import (
 	"context"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	"github.com/google/cel-go/common/types/traits"
+	celext "github.com/google/cel-go/ext"
 	"golang.org/x/text/cases"
 	"golang.org/x/text/language"
 )
@@ -768,6 +770,23 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				},
 			),
 		),
+		// The time library has a member function of the same name, so the context value is passed to all calls of it.
+		BindMemberFunction(
+			"format",
+			MemberOverloadFunc(createStringsID("format_string_list_string"), cel.StringType, []*cel.Type{cel.ListType(cel.DynType)}, cel.StringType,
+				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
+					prg, err := stringFormatProgram()
+					if err != nil {
+						return types.NewErr(err.Error())
+					}
+					out, _, err := prg.Eval(map[string]any{"self": self, "args": args[0]})
+					if err != nil {
+						return types.NewErr(err.Error())
+					}
+					return out
+				},
+			),
+		),
 	} {
 		opts = append(opts, funcOpts...)
 	}
@@ -775,6 +794,23 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 	return opts
 }
 
+// stringFormatProgram evaluates the format function of the cel-go extension.
+var stringFormatProgram = sync.OnceValues(func() (cel.Program, error) {
+	env, err := cel.NewCustomEnv(
+		celext.Strings(),
+		cel.Variable("self", cel.StringType),
+		cel.Variable("args", cel.ListType(cel.DynType)),
+	)
+	if err != nil {
+		return nil, err
+	}
+	expr, iss := env.Compile("self.format(args)")
+	if iss.Err() != nil {
+		return nil, iss.Err()
+	}
+	return env.Program(expr)
+})
+
 func (lib *StringsLibrary) ProgramOptions() []cel.ProgramOption {
 	return []cel.ProgramOption{}
 }
-- 
2.43.0


From 994a363d7382f3ef6dd714a2d574576a56e5079b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:30 +0000
Subject: [PATCH 24/67] fix: report errors and generate code in an order that
 does not depend on map iteration

---
 resolver/graph.go    |  5 ++++-
 resolver/message.go  |  4 ++++
 resolver/resolver.go | 36 ++++++++++++++++++++++++++----------
 resolver/service.go  |  8 +++++++-
 4 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index dd7a215..7ae4477 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -32,7 +32,10 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		}
 	}
 	sort.Slice(roots, func(i, j int) bool {
-		return roots[i].Message.Name < roots[j].Message.Name
+		if roots[i].Message.Name != roots[j].Message.Name {
+			return roots[i].Message.Name < roots[j].Message.Name
+		}
+		return roots[i].Message.FQDN() < roots[j].Message.FQDN()
 	})
 	graph := &AllMessageDependencyGraph{Roots: roots}
 	if err := validateAllMessageGraph(graph); err != nil {
diff --git a/resolver/message.go b/resolver/message.go
index d2e3571..46cd0e6 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -1,6 +1,7 @@
 package resolver
 
 import (
+	"sort"
 	"strings"
 
 	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
@@ -577,6 +578,9 @@ func (m *Message) GoPackageDependencies() []*GoPackage {
 	for pkg := range pkgMap {
 		pkgs = append(pkgs, pkg)
 	}
+	sort.Slice(pkgs, func(i, j int) bool {
+		return pkgs[i].ImportPath < pkgs[j].ImportPath
+	})
 	return pkgs
 }
 
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 75e39d2..a36e6a1 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1900,7 +1900,9 @@ func (r *Resolver) resolveEnumRules(ctx *context, enums []*Enum) {
 			valueBuilder := builder.WithValue(value.Value)
 			value.Rule = r.resolveEnumValueRule(ctx, enum, value, r.enumValueToRuleMap[value], valueBuilder.WithOption())
 		}
-		for attrName, enumValues := range enum.AttributeMap() {
+		attrMap := enum.AttributeMap()
+		for _, attrName := range slices.Sorted(maps.Keys(attrMap)) {
+			enumValues := attrMap[attrName]
 			if len(enumValues) != len(enum.Values) {
 				value := enumValues[0]
 				for idx, attr := range value.Rule.Attrs {
@@ -3664,7 +3666,10 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 			msgs = append(msgs, msg)
 		}
 		sort.Slice(msgs, func(i, j int) bool {
-			return msgs[i].Name < msgs[j].Name
+			if msgs[i].Name != msgs[j].Name {
+				return msgs[i].Name < msgs[j].Name
+			}
+			return msgs[i].FQDN() < msgs[j].FQDN()
 		})
 		args := make([]*Message, 0, len(msgs))
 		for _, msg := range msgs {
@@ -3875,7 +3880,7 @@ func (r *Resolver) validateMessageDependencyArgumentName(ctx *context, argNameMa
 				}
 			}
 		}
-		for name := range argNameMap {
+		for _, name := range slices.Sorted(maps.Keys(argNameMap)) {
 			if _, exists := curDepArgNameMap[name]; exists {
 				continue
 			}
@@ -4633,15 +4638,16 @@ func (r *Resolver) buildEnvMessage(ctx *context, msg *Message, svcMsgSet map[*Se
 	var envVars []*EnvVar
 	var mismatchEnvVarNames []string
 	mismatchServiceNames := map[string][]string{}
-	for envVarName := range envVarNameSet {
+	svcs := sortedServices(svcEnvVarMap)
+	for _, envVarName := range slices.Sorted(maps.Keys(envVarNameSet)) {
 		omit := false
 		type svcEnvVar struct {
 			svc    *Service
 			envVar *EnvVar
 		}
 		var svcEnvVars []*svcEnvVar
-		for svc, envVarMap := range svcEnvVarMap {
-			envVar, exists := envVarMap[envVarName]
+		for _, svc := range svcs {
+			envVar, exists := svcEnvVarMap[svc][envVarName]
 			if !exists {
 				// The given envVar is not defined in the service, so just omit it from the intersection set
 				omit = true
@@ -4694,6 +4700,13 @@ func (r *Resolver) buildEnvMessage(ctx *context, msg *Message, svcMsgSet map[*Se
 	return envVarsToMessage(msg.File, strings.Replace(msg.FQDN(), ".", "_", -1), envVars)
 }
 
+// sortedServices returns the services in a fixed order.
+func sortedServices[T any](svcMap map[*Service]T) []*Service {
+	return slices.SortedFunc(maps.Keys(svcMap), func(a, b *Service) int {
+		return strings.Compare(a.FQDN(), b.FQDN())
+	})
+}
+
 func (r *Resolver) buildServiceVariablesMessage(ctx *context, msg *Message, svcMsgSet map[*Service]map[*Message]struct{}, builder *source.MessageBuilder) *Message {
 	if msg.File == nil {
 		return nil
@@ -4729,15 +4742,16 @@ func (r *Resolver) buildServiceVariablesMessage(ctx *context, msg *Message, svcM
 	var svcVars []*ServiceVariable
 	var mismatchSvcVarNames []string
 	mismatchServiceNames := map[string][]string{}
-	for svcVarName := range svcVarNameSet {
+	svcs := sortedServices(svcVarMap)
+	for _, svcVarName := range slices.Sorted(maps.Keys(svcVarNameSet)) {
 		omit := false
 		type SvcVarSet struct {
 			svc    *Service
 			svcVar *ServiceVariable
 		}
 		var svcVarSets []*SvcVarSet
-		for svc, svcVarNameMap := range svcVarMap {
-			svcVar, exists := svcVarNameMap[svcVarName]
+		for _, svc := range svcs {
+			svcVar, exists := svcVarMap[svc][svcVarName]
 			if !exists {
 				// The given svcVar is not defined in the service, so just omit it from the intersection set
 				omit = true
@@ -5240,7 +5254,9 @@ func (r *Resolver) resolveValue(def *commonValueDef) (*Value, error) {
 }
 
 func (r *Resolver) lookupRequestMessageFromResponseMessage(resMsg *Message) *Message {
-	for _, method := range r.cachedMethodMap {
+	// If there are several methods, always use the same one.
+	for _, fqdn := range slices.Sorted(maps.Keys(r.cachedMethodMap)) {
+		method := r.cachedMethodMap[fqdn]
 		if method.FederationResponse() == resMsg {
 			return method.Request
 		}
diff --git a/resolver/service.go b/resolver/service.go
index 18d9890..e9f7e62 100644
--- a/resolver/service.go
+++ b/resolver/service.go
@@ -90,6 +90,9 @@ func (s *Service) GoPackageDependencies() []*GoPackage {
 	for pkg := range pkgMap {
 		pkgs = append(pkgs, pkg)
 	}
+	sort.Slice(pkgs, func(i, j int) bool {
+		return pkgs[i].ImportPath < pkgs[j].ImportPath
+	})
 	return pkgs
 }
 
@@ -168,7 +171,10 @@ func (s *Service) UseServices() []*Service {
 		svcs = append(svcs, svc)
 	}
 	sort.Slice(svcs, func(i, j int) bool {
-		return svcs[i].Name < svcs[j].Name
+		if svcs[i].Name != svcs[j].Name {
+			return svcs[i].Name < svcs[j].Name
+		}
+		return svcs[i].FQDN() < svcs[j].FQDN()
 	})
 	return svcs
 }
-- 
2.43.0


From a5eb761283ac4d56090c199f142b152b1f60397e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:32 +0000
Subject: [PATCH 25/67] fix: give every imported package of the generated code
 one alias of its own

---
 generator/code_generator.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index e0f6da0..9a82468 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -39,14 +39,14 @@ func (g *CodeGenerator) Generate(file *resolver.File) ([]byte, error) {
 type File struct {
 	*resolver.File
 	pkgMap   map[*resolver.GoPackage]struct{}
-	aliasMap map[*resolver.GoPackage]string
+	aliasMap map[string]string // import path => alias
 }
 
 func NewFile(file *resolver.File) *File {
 	return &File{
 		File:     file,
 		pkgMap:   make(map[*resolver.GoPackage]struct{}),
-		aliasMap: make(map[*resolver.GoPackage]string),
+		aliasMap: make(map[string]string),
 	}
 }
 
@@ -621,21 +621,24 @@ func (f *File) Imports() []*Import {
 				suffixIndex++
 			}
 		}
-		f.aliasMap[pkg] = alias
+		f.aliasMap[pkg.ImportPath] = alias
 		imports = append(imports, &Import{
 			Path:  pkg.ImportPath,
 			Alias: alias,
 			Used:  true,
 		})
 		importPathMap[pkg.ImportPath] = struct{}{}
-		importAliasMap[pkg.Name] = struct{}{}
+		importAliasMap[alias] = struct{}{}
 	}
 	sortedPkgs := make([]*resolver.GoPackage, 0, len(f.pkgMap))
 	for pkg := range f.pkgMap {
 		sortedPkgs = append(sortedPkgs, pkg)
 	}
 	sort.Slice(sortedPkgs, func(i, j int) bool {
-		return sortedPkgs[i].ImportPath < sortedPkgs[j].ImportPath
+		if sortedPkgs[i].ImportPath != sortedPkgs[j].ImportPath {
+			return sortedPkgs[i].ImportPath < sortedPkgs[j].ImportPath
+		}
+		return sortedPkgs[i].Name < sortedPkgs[j].Name
 	})
 	for _, pkg := range sortedPkgs {
 		addImport(pkg)
@@ -647,7 +650,7 @@ func (f *File) Imports() []*Import {
 }
 
 func (f *File) getAlias(pkg *resolver.GoPackage) string {
-	alias, exists := f.aliasMap[pkg]
+	alias, exists := f.aliasMap[pkg.ImportPath]
 	if exists {
 		return alias
 	}
-- 
2.43.0


From 601dd8deabf61da7d407e4a6d25beab37027209e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 26/67] fix: do not merge different objects in the request of
 code generator plugins

---
 grpc/federation/generator/decode.go | 16 +++++++---
 grpc/federation/generator/encode.go | 48 +++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index f996591..c176c0a 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -754,7 +754,9 @@ func (d *decoder) toMessageDependencyGraph(id string) (*resolver.MessageDependen
 	ret := &resolver.MessageDependencyGraph{}
 	d.graphMap[id] = ret
 
-	roots, err := d.toMessageDependencyGraphNodes(graph.GetRoots())
+	// A node which has several parents appears in the children of all of them.
+	nodeMap := make(map[string]*resolver.MessageDependencyGraphNode)
+	roots, err := d.toMessageDependencyGraphNodes(graph.GetRoots(), nodeMap)
 	if err != nil {
 		return nil, err
 	}
@@ -762,13 +764,13 @@ func (d *decoder) toMessageDependencyGraph(id string) (*resolver.MessageDependen
 	return ret, nil
 }
 
-func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependencyGraphNode) ([]*resolver.MessageDependencyGraphNode, error) {
+func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependencyGraphNode, nodeMap map[string]*resolver.MessageDependencyGraphNode) ([]*resolver.MessageDependencyGraphNode, error) {
 	if nodes == nil {
 		return nil, nil
 	}
 	ret := make([]*resolver.MessageDependencyGraphNode, 0, len(nodes))
 	for _, node := range nodes {
-		n, err := d.toMessageDependencyGraphNode(node)
+		n, err := d.toMessageDependencyGraphNode(node, nodeMap)
 		if err != nil {
 			return nil, err
 		}
@@ -780,15 +782,19 @@ func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependenc
 	return ret, nil
 }
 
-func (d *decoder) toMessageDependencyGraphNode(node *plugin.MessageDependencyGraphNode) (*resolver.MessageDependencyGraphNode, error) {
+func (d *decoder) toMessageDependencyGraphNode(node *plugin.MessageDependencyGraphNode, nodeMap map[string]*resolver.MessageDependencyGraphNode) (*resolver.MessageDependencyGraphNode, error) {
 	if node == nil {
 		return nil, nil
 	}
+	if n, exists := nodeMap[node.GetVariableDefinitionId()]; exists {
+		return n, nil
+	}
 	ret := &resolver.MessageDependencyGraphNode{
 		ParentMap:   make(map[*resolver.MessageDependencyGraphNode]struct{}),
 		ChildrenMap: make(map[*resolver.MessageDependencyGraphNode]struct{}),
 	}
-	children, err := d.toMessageDependencyGraphNodes(node.GetChildren())
+	nodeMap[node.GetVariableDefinitionId()] = ret
+	children, err := d.toMessageDependencyGraphNodes(node.GetChildren(), nodeMap)
 	if err != nil {
 		return nil, err
 	}
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 5f73210..f070088 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -12,11 +12,15 @@ import (
 )
 
 type encoder struct {
-	ref *plugin.Reference
+	ref         *plugin.Reference
+	idMap       map[any]string
+	existsIDMap map[string]struct{}
 }
 
 func newEncoder() *encoder {
 	return &encoder{
+		idMap:       make(map[any]string),
+		existsIDMap: make(map[string]struct{}),
 		ref: &plugin.Reference{
 			FileMap:                    make(map[string]*plugin.File),
 			EnumMap:                    make(map[string]*plugin.Enum),
@@ -1253,63 +1257,63 @@ func (e *encoder) toFileID(file *resolver.File) string {
 	if file == nil {
 		return ""
 	}
-	return file.Package.Name + ":" + file.Name
+	return e.uniqueID(file, "file", file.Package.Name+":"+file.Name)
 }
 
 func (e *encoder) toServiceID(svc *resolver.Service) string {
 	if svc == nil {
 		return ""
 	}
-	return svc.FQDN()
+	return e.uniqueID(svc, "service", svc.FQDN())
 }
 
 func (e *encoder) toMethodID(mtd *resolver.Method) string {
 	if mtd == nil {
 		return ""
 	}
-	return mtd.FQDN()
+	return e.uniqueID(mtd, "method", mtd.FQDN())
 }
 
 func (e *encoder) toMessageID(msg *resolver.Message) string {
 	if msg == nil {
 		return ""
 	}
-	return msg.FQDN()
+	return e.uniqueID(msg, "message", msg.FQDN())
 }
 
 func (e *encoder) toFieldID(field *resolver.Field) string {
 	if field == nil {
 		return ""
 	}
-	return field.FQDN()
+	return e.uniqueID(field, "field", field.FQDN())
 }
 
 func (e *encoder) toOneofID(oneof *resolver.Oneof) string {
 	if oneof == nil {
 		return ""
 	}
-	return fmt.Sprintf("%s.%s", oneof.Message.FQDN(), oneof.Name)
+	return e.uniqueID(oneof, "oneof", fmt.Sprintf("%s.%s", oneof.Message.FQDN(), oneof.Name))
 }
 
 func (e *encoder) toEnumID(enum *resolver.Enum) string {
 	if enum == nil {
 		return ""
 	}
-	return enum.FQDN()
+	return e.uniqueID(enum, "enum", enum.FQDN())
 }
 
 func (e *encoder) toEnumValueID(value *resolver.EnumValue) string {
 	if value == nil {
 		return ""
 	}
-	return fmt.Sprintf("%s.%s", value.Enum.FQDN(), value.Value)
+	return e.uniqueID(value, "enum_value", fmt.Sprintf("%s.%s", value.Enum.FQDN(), value.Value))
 }
 
 func (e *encoder) toCELPluginID(celPlugin *resolver.CELPlugin) string {
 	if celPlugin == nil {
 		return ""
 	}
-	return celPlugin.Name
+	return e.uniqueID(celPlugin, "plugin", celPlugin.Name)
 }
 
 func (e *encoder) toDependencyGraphID(graph *resolver.MessageDependencyGraph) string {
@@ -1320,14 +1324,14 @@ func (e *encoder) toDependencyGraphID(graph *resolver.MessageDependencyGraph) st
 	for _, root := range graph.Roots {
 		roots = append(roots, root.FQDN())
 	}
-	return strings.Join(roots, ":")
+	return e.uniqueID(graph, "graph", strings.Join(roots, ":"))
 }
 
 func (e *encoder) toVariableDefinitionID(def *resolver.VariableDefinition) string {
 	if def == nil {
 		return ""
 	}
-	return def.Name
+	return e.uniqueID(def, "def", def.Name)
 }
 
 func (e *encoder) toVariableDefinitionGroupID(group resolver.VariableDefinitionGroup) string {
@@ -1338,5 +1342,23 @@ func (e *encoder) toVariableDefinitionGroupID(group resolver.VariableDefinitionG
 	for _, def := range group.VariableDefinitions() {
 		defIDs = append(defIDs, e.toVariableDefinitionID(def))
 	}
-	return fmt.Sprintf("%s/%s", group.Type(), strings.Join(defIDs, ":"))
+	return e.uniqueID(group, "group", fmt.Sprintf("%s/%s", group.Type(), strings.Join(defIDs, ":")))
+}
+
+// uniqueID returns the id of v. The base is not always unique in a request
+// ( e.g. different messages may have variable definitions of the same name ), so a sequence number is added in this case.
+func (e *encoder) uniqueID(v any, category, base string) string {
+	if id, exists := e.idMap[v]; exists {
+		return id
+	}
+	id := base
+	for i := 2; ; i++ {
+		if _, exists := e.existsIDMap[category+"/"+id]; id != "" && !exists {
+			break
+		}
+		id = fmt.Sprintf("%s#%d", base, i)
+	}
+	e.idMap[v] = id
+	e.existsIDMap[category+"/"+id] = struct{}{}
+	return id
 }
-- 
2.43.0


From 5dae59578e2f958000e666ec54ee027e39015e58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:37 +0000
Subject: [PATCH 27/67] fix: pass on all parts of the request of code generator
 plugins

---
 grpc/federation/generator/decode.go | 41 +++++++++++++++++++++++++++--
 grpc/federation/generator/encode.go | 27 ++++++++++++++++---
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index c176c0a..4770f93 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -72,6 +72,8 @@ func (d *decoder) toCodeGeneratorRequest(req *plugin.CodeGeneratorRequest) (*Cod
 		return nil, err
 	}
 	return &CodeGeneratorRequest{
+		ProtoPath:           req.GetProtoPath(),
+		OutDir:              req.GetOutDir(),
 		Files:               req.GetFiles(),
 		GRPCFederationFiles: grpcFederationFiles,
 	}, nil
@@ -251,6 +253,9 @@ func (d *decoder) toServiceRule(rule *plugin.ServiceRule) (*resolver.ServiceRule
 }
 
 func (d *decoder) toEnv(env *plugin.Env) (*resolver.Env, error) {
+	if env == nil {
+		return nil, nil
+	}
 	vars, err := d.toEnvVars(env.GetVars())
 	if err != nil {
 		return nil, err
@@ -1067,9 +1072,14 @@ func (d *decoder) toCallExpr(expr *plugin.CallExpr) (*resolver.CallExpr, error)
 		timeout := expr.GetTimeout().AsDuration()
 		ret.Timeout = &timeout
 	}
+	grpcErrs, err := d.toGRPCErrors(expr.GetErrors())
+	if err != nil {
+		return nil, err
+	}
 	ret.Method = mtd
 	ret.Request = req
 	ret.Retry = retry
+	ret.Errors = grpcErrs
 	return ret, nil
 }
 
@@ -1217,7 +1227,7 @@ func (d *decoder) toValidationExpr(expr *plugin.ValidationExpr) (*resolver.Valid
 	if expr == nil {
 		return nil, nil
 	}
-	ret := &resolver.ValidationExpr{}
+	ret := &resolver.ValidationExpr{Name: expr.GetName()}
 
 	grpcErr, err := d.toGRPCError(expr.GetError())
 	if err != nil {
@@ -1227,6 +1237,24 @@ func (d *decoder) toValidationExpr(expr *plugin.ValidationExpr) (*resolver.Valid
 	return ret, nil
 }
 
+func (d *decoder) toGRPCErrors(errs []*plugin.GRPCError) ([]*resolver.GRPCError, error) {
+	if errs == nil {
+		return nil, nil
+	}
+	ret := make([]*resolver.GRPCError, 0, len(errs))
+	for _, e := range errs {
+		v, err := d.toGRPCError(e)
+		if err != nil {
+			return nil, err
+		}
+		if v == nil {
+			continue
+		}
+		ret = append(ret, v)
+	}
+	return ret, nil
+}
+
 func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error) {
 	if e == nil {
 		return nil, nil
@@ -1236,6 +1264,10 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 		Ignore: e.GetIgnore(),
 	}
 
+	defSet, err := d.toVariableDefinitionSet(e.GetDefSet())
+	if err != nil {
+		return nil, err
+	}
 	ifValue, err := d.toCELValue(e.GetIf())
 	if err != nil {
 		return nil, err
@@ -1252,6 +1284,7 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 	if err != nil {
 		return nil, err
 	}
+	ret.DefSet = defSet
 	ret.If = ifValue
 	ret.Message = msgValue
 	ret.Details = details
@@ -1863,8 +1896,12 @@ func (d *decoder) toType(t *plugin.Type) (*resolver.Type, error) {
 	if err != nil {
 		return nil, err
 	}
+	kind := d.toTypeKind(t.GetKind())
+	if t.GetIsNull() && kind == types.Unknown {
+		kind = resolver.NullType.Kind
+	}
 	return &resolver.Type{
-		Kind:       d.toTypeKind(t.GetKind()),
+		Kind:       kind,
 		Repeated:   t.GetRepeated(),
 		IsNull:     t.GetIsNull(),
 		Message:    msg,
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index f070088..cc0a572 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -64,6 +64,7 @@ func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugi
 	ret := &plugin.CodeGeneratorRequest{
 		ProtoPath: cfg.ProtoPath,
 		OutDir:    cfg.OutDir,
+		Files:     cfg.Files,
 		Reference: e.ref,
 	}
 	for _, file := range e.toFiles(cfg.GRPCFederationFiles) {
@@ -227,6 +228,10 @@ func (e *encoder) toServiceVariableExpr(expr *resolver.ServiceVariableExpr) *plu
 		ret.Expr = &plugin.ServiceVariableExpr_Map{
 			Map: e.toMapExpr(expr.Map),
 		}
+	case expr.Map != nil:
+		ret.Expr = &plugin.ServiceVariableExpr_Map{
+			Map: e.toMapExpr(expr.Map),
+		}
 	case expr.Message != nil:
 		ret.Expr = &plugin.ServiceVariableExpr_Message{
 			Message: e.toMessageExpr(expr.Message),
@@ -360,6 +365,9 @@ func (e *encoder) toMessageRule(rule *resolver.MessageRule) *plugin.MessageRule
 }
 
 func (e *encoder) toVariableDefinitionSet(set *resolver.VariableDefinitionSet) *plugin.VariableDefinitionSet {
+	if set == nil {
+		return nil
+	}
 	ret := &plugin.VariableDefinitionSet{}
 	ret.DependencyGraphId = e.toMessageDependencyGraph(set.DependencyGraph()).GetId()
 	for _, def := range e.toVariableDefinitions(set.Definitions()) {
@@ -409,7 +417,7 @@ func (e *encoder) toEnumRule(rule *resolver.EnumRule) *plugin.EnumRule {
 	}
 	var aliasIDs []string
 	for _, alias := range rule.Aliases {
-		aliasIDs = append(aliasIDs, e.toEnumID(alias))
+		aliasIDs = append(aliasIDs, e.toEnum(alias).GetId())
 	}
 	return &plugin.EnumRule{
 		AliasIds: aliasIDs,
@@ -458,10 +466,10 @@ func (e *encoder) toEnumValueAlias(alias *resolver.EnumValueAlias) *plugin.EnumV
 	}
 	var valueIDs []string
 	for _, valueAlias := range alias.Aliases {
-		valueIDs = append(valueIDs, e.toEnumValueID(valueAlias))
+		valueIDs = append(valueIDs, e.toEnumValue(valueAlias).GetId())
 	}
 	return &plugin.EnumValueAlias{
-		EnumAliasId: e.toEnumID(alias.EnumAlias),
+		EnumAliasId: e.toEnum(alias.EnumAlias).GetId(),
 		AliasIds:    valueIDs,
 	}
 }
@@ -973,7 +981,7 @@ func (e *encoder) toIterator(iter *resolver.Iterator) *plugin.Iterator {
 	}
 	return &plugin.Iterator{
 		Name:     iter.Name,
-		SourceId: e.toVariableDefinitionID(iter.Source),
+		SourceId: e.toVariableDefinition(iter.Source).GetId(),
 	}
 }
 
@@ -1014,6 +1022,7 @@ func (e *encoder) toCallExpr(expr *resolver.CallExpr) *plugin.CallExpr {
 		Request:  e.toRequest(expr.Request),
 		Timeout:  timeout,
 		Retry:    e.toRetryPolicy(expr.Retry),
+		Errors:   e.toGRPCErrors(expr.Errors),
 	}
 }
 
@@ -1123,15 +1132,25 @@ func (e *encoder) toValidationExpr(expr *resolver.ValidationExpr) *plugin.Valida
 		return nil
 	}
 	return &plugin.ValidationExpr{
+		Name:  expr.Name,
 		Error: e.toGRPCError(expr.Error),
 	}
 }
 
+func (e *encoder) toGRPCErrors(errs []*resolver.GRPCError) []*plugin.GRPCError {
+	ret := make([]*plugin.GRPCError, 0, len(errs))
+	for _, err := range errs {
+		ret = append(ret, e.toGRPCError(err))
+	}
+	return ret
+}
+
 func (e *encoder) toGRPCError(err *resolver.GRPCError) *plugin.GRPCError {
 	if err == nil {
 		return nil
 	}
 	return &plugin.GRPCError{
+		DefSet:            e.toVariableDefinitionSet(err.DefSet),
 		Code:              err.Code,
 		If:                e.toCELValue(err.If),
 		Message:           e.toCELValue(err.Message),
-- 
2.43.0


From c08af3e872cd5ffba980f138f5d92687e56e0231 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 28/67] fix: add the parts of the resolved schema that the
 request of code generator plugins lacked

---
 grpc/federation/generator/decode.go           |   13 +-
 grpc/federation/generator/encode.go           |    9 +-
 .../generator/plugin/generator.pb.go          | 1265 +++++++++--------
 proto/grpc/federation/generator.proto         |    4 +
 4 files changed, 672 insertions(+), 619 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index 4770f93..fd13e46 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"fmt"
 	"io"
+	"log/slog"
 
 	"google.golang.org/protobuf/proto"
 
@@ -539,6 +540,7 @@ func (d *decoder) toFieldRule(rule *plugin.FieldRule) (*resolver.FieldRule, erro
 	ret := &resolver.FieldRule{
 		CustomResolver:        rule.GetCustomResolver(),
 		MessageCustomResolver: rule.GetMessageCustomResolver(),
+		Env:                   d.toEnvVarOption(rule.GetEnv()),
 	}
 	value, err := d.toValue(rule.GetValue())
 	if err != nil {
@@ -1260,8 +1262,9 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 		return nil, nil
 	}
 	ret := &resolver.GRPCError{
-		Code:   e.Code,
-		Ignore: e.GetIgnore(),
+		Code:     e.Code,
+		Ignore:   e.GetIgnore(),
+		LogLevel: slog.Level(e.GetLogLevel()),
 	}
 
 	defSet, err := d.toVariableDefinitionSet(e.GetDefSet())
@@ -1892,7 +1895,11 @@ func (d *decoder) toType(t *plugin.Type) (*resolver.Type, error) {
 	if err != nil {
 		return nil, err
 	}
-	oneofField, err := d.toOneofField(t.GetOneofFieldId())
+	oneofFieldID := t.GetOneofFieldId()
+	if id := t.GetSourceOneofFieldId(); id != "" {
+		oneofFieldID = id
+	}
+	oneofField, err := d.toOneofField(oneofFieldID)
 	if err != nil {
 		return nil, err
 	}
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index cc0a572..1b1c127 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -557,6 +557,7 @@ func (e *encoder) toFieldRule(rule *resolver.FieldRule) *plugin.FieldRule {
 		AliasIds:              aliasIds,
 		AutoBindField:         e.toAutoBindField(rule.AutoBindField),
 		OneofRule:             e.toFieldOneofRule(rule.Oneof),
+		Env:                   e.toEnvVarOption(rule.Env),
 	}
 }
 
@@ -740,7 +741,12 @@ func (e *encoder) toType(t *resolver.Type) *plugin.Type {
 		ret.Ref = &plugin.Type_EnumId{
 			EnumId: e.toEnum(t.Enum).GetId(),
 		}
-	case t.OneofField != nil:
+	}
+	switch {
+	case t.OneofField == nil:
+	case ret.Ref != nil:
+		ret.SourceOneofFieldId = e.toField(t.OneofField.Field).GetId()
+	default:
 		ret.Ref = &plugin.Type_OneofFieldId{
 			OneofFieldId: e.toField(t.OneofField.Field).GetId(),
 		}
@@ -1157,6 +1163,7 @@ func (e *encoder) toGRPCError(err *resolver.GRPCError) *plugin.GRPCError {
 		Details:           e.toGRPCErrorDetails(err.Details),
 		Ignore:            err.Ignore,
 		IgnoreAndResponse: e.toCELValue(err.IgnoreAndResponse),
+		LogLevel:          int64(err.LogLevel),
 	}
 }
 
diff --git a/grpc/federation/generator/plugin/generator.pb.go b/grpc/federation/generator/plugin/generator.pb.go
index d65e21f..fbf09b4 100644
--- a/grpc/federation/generator/plugin/generator.pb.go
+++ b/grpc/federation/generator/plugin/generator.pb.go
@@ -1,7 +1,7 @@
 // Code generated by protoc-gen-go. DO NOT EDIT.
 // versions:
-// 	protoc-gen-go v1.33.0
-// 	protoc        (unknown)
+// 	protoc-gen-go v1.34.2
+// 	protoc        v3.21.12
 // source: grpc/federation/generator.proto
 
 package plugin
@@ -1979,6 +1979,7 @@ type FieldRule struct {
 	AliasIds              []string        `protobuf:"bytes,4,rep,name=alias_ids,json=aliasIds,proto3" json:"alias_ids,omitempty"`
 	AutoBindField         *AutoBindField  `protobuf:"bytes,5,opt,name=auto_bind_field,json=autoBindField,proto3" json:"auto_bind_field,omitempty"`
 	OneofRule             *FieldOneofRule `protobuf:"bytes,6,opt,name=oneof_rule,json=oneofRule,proto3" json:"oneof_rule,omitempty"`
+	Env                   *EnvVarOption   `protobuf:"bytes,7,opt,name=env,proto3" json:"env,omitempty"`
 }
 
 func (x *FieldRule) Reset() {
@@ -2055,6 +2056,13 @@ func (x *FieldRule) GetOneofRule() *FieldOneofRule {
 	return nil
 }
 
+func (x *FieldRule) GetEnv() *EnvVarOption {
+	if x != nil {
+		return x.Env
+	}
+	return nil
+}
+
 type AutoBindField struct {
 	state         protoimpl.MessageState
 	sizeCache     protoimpl.SizeCache
@@ -2657,6 +2665,8 @@ type Type struct {
 	//	*Type_EnumId
 	//	*Type_OneofFieldId
 	Ref isType_Ref `protobuf_oneof:"ref"`
+	// source_oneof_field_id is the field of the oneof which has the type if ref is message_id or enum_id.
+	SourceOneofFieldId string `protobuf:"bytes,7,opt,name=source_oneof_field_id,json=sourceOneofFieldId,proto3" json:"source_oneof_field_id,omitempty"`
 }
 
 func (x *Type) Reset() {
@@ -2740,6 +2750,13 @@ func (x *Type) GetOneofFieldId() string {
 	return ""
 }
 
+func (x *Type) GetSourceOneofFieldId() string {
+	if x != nil {
+		return x.SourceOneofFieldId
+	}
+	return ""
+}
+
 type isType_Ref interface {
 	isType_Ref()
 }
@@ -3698,6 +3715,7 @@ type GRPCError struct {
 	Details           []*GRPCErrorDetail     `protobuf:"bytes,5,rep,name=details,proto3" json:"details,omitempty"`
 	Ignore            bool                   `protobuf:"varint,6,opt,name=ignore,proto3" json:"ignore,omitempty"`
 	IgnoreAndResponse *CELValue              `protobuf:"bytes,7,opt,name=ignore_and_response,json=ignoreAndResponse,proto3" json:"ignore_and_response,omitempty"`
+	LogLevel          int64                  `protobuf:"varint,8,opt,name=log_level,json=logLevel,proto3" json:"log_level,omitempty"`
 }
 
 func (x *GRPCError) Reset() {
@@ -3781,6 +3799,13 @@ func (x *GRPCError) GetIgnoreAndResponse() *CELValue {
 	return nil
 }
 
+func (x *GRPCError) GetLogLevel() int64 {
+	if x != nil {
+		return x.LogLevel
+	}
+	return 0
+}
+
 type GRPCErrorDetail struct {
 	state         protoimpl.MessageState
 	sizeCache     protoimpl.SizeCache
@@ -5437,7 +5462,7 @@ var file_grpc_federation_generator_proto_rawDesc = []byte{
 	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x52, 0x75,
 	0x6c, 0x65, 0x52, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x12, 0x1d, 0x0a, 0x0a, 0x6d, 0x65, 0x73, 0x73,
 	0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x06, 0x20, 0x01, 0x28, 0x09, 0x52, 0x09, 0x6d, 0x65,
-	0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x22, 0xf2, 0x02, 0x0a, 0x09, 0x46, 0x69, 0x65, 0x6c,
+	0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x22, 0xb4, 0x03, 0x0a, 0x09, 0x46, 0x69, 0x65, 0x6c,
 	0x64, 0x52, 0x75, 0x6c, 0x65, 0x12, 0x3d, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x01,
 	0x20, 0x01, 0x28, 0x0b, 0x32, 0x27, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
 	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
@@ -5460,491 +5485,500 @@ var file_grpc_federation_generator_proto_rawDesc = []byte{
 	0x30, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
 	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
 	0x69, 0x6e, 0x2e, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x4f, 0x6e, 0x65, 0x6f, 0x66, 0x52, 0x75, 0x6c,
-	0x65, 0x52, 0x09, 0x6f, 0x6e, 0x65, 0x6f, 0x66, 0x52, 0x75, 0x6c, 0x65, 0x22, 0x60, 0x0a, 0x0d,
-	0x41, 0x75, 0x74, 0x6f, 0x42, 0x69, 0x6e, 0x64, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x12, 0x34, 0x0a,
-	0x16, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x5f, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69,
-	0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x14, 0x76,
-	0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
-	0x6e, 0x49, 0x64, 0x12, 0x19, 0x0a, 0x08, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69, 0x64, 0x18,
-	0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x07, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x49, 0x64, 0x22, 0xf4,
-	0x01, 0x0a, 0x0e, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x4f, 0x6e, 0x65, 0x6f, 0x66, 0x52, 0x75, 0x6c,
-	0x65, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e,
-	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
-	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12, 0x18, 0x0a,
-	0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08, 0x52, 0x07,
-	0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x12, 0x3a, 0x0a, 0x02, 0x62, 0x79, 0x18, 0x03, 0x20,
-	0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
-	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
-	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52,
-	0x02, 0x62, 0x79, 0x12, 0x50, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x5f, 0x73, 0x65, 0x74, 0x18, 0x04,
-	0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
-	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65,
-	0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x53, 0x65, 0x74, 0x52, 0x06, 0x64,
-	0x65, 0x66, 0x53, 0x65, 0x74, 0x22, 0x80, 0x02, 0x0a, 0x17, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62,
-	0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75,
-	0x70, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69,
-	0x64, 0x12, 0x65, 0x0a, 0x0a, 0x73, 0x65, 0x71, 0x75, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x18,
-	0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x43, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
+	0x65, 0x52, 0x09, 0x6f, 0x6e, 0x65, 0x6f, 0x66, 0x52, 0x75, 0x6c, 0x65, 0x12, 0x40, 0x0a, 0x03,
+	0x65, 0x6e, 0x76, 0x18, 0x07, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2e, 0x2e, 0x67, 0x72, 0x70, 0x63,
+	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
+	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x76,
+	0x56, 0x61, 0x72, 0x4f, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x03, 0x65, 0x6e, 0x76, 0x22, 0x60,
+	0x0a, 0x0d, 0x41, 0x75, 0x74, 0x6f, 0x42, 0x69, 0x6e, 0x64, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x12,
+	0x34, 0x0a, 0x16, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x5f, 0x64, 0x65, 0x66, 0x69,
+	0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52,
+	0x14, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74,
+	0x69, 0x6f, 0x6e, 0x49, 0x64, 0x12, 0x19, 0x0a, 0x08, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69,
+	0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x07, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x49, 0x64,
+	0x22, 0xf4, 0x01, 0x0a, 0x0e, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x4f, 0x6e, 0x65, 0x6f, 0x66, 0x52,
+	0x75, 0x6c, 0x65, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32,
+	0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12,
+	0x18, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08,
+	0x52, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x12, 0x3a, 0x0a, 0x02, 0x62, 0x79, 0x18,
+	0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
 	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x53, 0x65, 0x71, 0x75, 0x65, 0x6e, 0x74,
-	0x69, 0x61, 0x6c, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e,
-	0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x48, 0x00, 0x52, 0x0a, 0x73, 0x65,
-	0x71, 0x75, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x12, 0x65, 0x0a, 0x0a, 0x63, 0x6f, 0x6e, 0x63,
-	0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x43, 0x2e, 0x67,
-	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
-	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x43, 0x6f, 0x6e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62,
-	0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75,
-	0x70, 0x48, 0x00, 0x52, 0x0a, 0x63, 0x6f, 0x6e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x42,
-	0x07, 0x0a, 0x05, 0x67, 0x72, 0x6f, 0x75, 0x70, 0x22, 0x4b, 0x0a, 0x21, 0x53, 0x65, 0x71, 0x75,
-	0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65,
-	0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x12, 0x14, 0x0a,
-	0x05, 0x73, 0x74, 0x61, 0x72, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x73, 0x74,
-	0x61, 0x72, 0x74, 0x12, 0x10, 0x0a, 0x03, 0x65, 0x6e, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09,
-	0x52, 0x03, 0x65, 0x6e, 0x64, 0x22, 0x4d, 0x0a, 0x21, 0x43, 0x6f, 0x6e, 0x63, 0x75, 0x72, 0x72,
-	0x65, 0x6e, 0x74, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e,
-	0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x12, 0x16, 0x0a, 0x06, 0x73, 0x74,
-	0x61, 0x72, 0x74, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x09, 0x52, 0x06, 0x73, 0x74, 0x61, 0x72,
-	0x74, 0x73, 0x12, 0x10, 0x0a, 0x03, 0x65, 0x6e, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52,
-	0x03, 0x65, 0x6e, 0x64, 0x22, 0x7c, 0x0a, 0x16, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x44,
-	0x65, 0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x12, 0x0e,
-	0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64, 0x12, 0x52,
-	0x0a, 0x05, 0x72, 0x6f, 0x6f, 0x74, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x3c, 0x2e,
-	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
-	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x44, 0x65, 0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e,
-	0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e, 0x6f, 0x64, 0x65, 0x52, 0x05, 0x72, 0x6f, 0x6f,
-	0x74, 0x73, 0x22, 0xd4, 0x01, 0x0a, 0x1a, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x44, 0x65,
-	0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e, 0x6f, 0x64,
-	0x65, 0x12, 0x58, 0x0a, 0x08, 0x63, 0x68, 0x69, 0x6c, 0x64, 0x72, 0x65, 0x6e, 0x18, 0x01, 0x20,
-	0x03, 0x28, 0x0b, 0x32, 0x3c, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
-	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
-	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x44, 0x65,
-	0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e, 0x6f, 0x64,
-	0x65, 0x52, 0x08, 0x63, 0x68, 0x69, 0x6c, 0x64, 0x72, 0x65, 0x6e, 0x12, 0x26, 0x0a, 0x0f, 0x62,
-	0x61, 0x73, 0x65, 0x5f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x02,
-	0x20, 0x01, 0x28, 0x09, 0x52, 0x0d, 0x62, 0x61, 0x73, 0x65, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67,
-	0x65, 0x49, 0x64, 0x12, 0x34, 0x0a, 0x16, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x5f,
-	0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x69, 0x64, 0x18, 0x03, 0x20,
-	0x01, 0x28, 0x09, 0x52, 0x14, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66,
-	0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x49, 0x64, 0x22, 0xf2, 0x03, 0x0a, 0x0c, 0x56, 0x61,
-	0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x45, 0x78, 0x70, 0x72, 0x12, 0x3a, 0x0a, 0x04, 0x74, 0x79,
-	0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
-	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
-	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65,
-	0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12, 0x3c, 0x0a, 0x02, 0x62, 0x79, 0x18, 0x02, 0x20, 0x01,
-	0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
-	0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70,
-	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x48, 0x00,
-	0x52, 0x02, 0x62, 0x79, 0x12, 0x3d, 0x0a, 0x03, 0x6d, 0x61, 0x70, 0x18, 0x03, 0x20, 0x01, 0x28,
-	0x0b, 0x32, 0x29, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
-	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
-	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x61, 0x70, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x03,
-	0x6d, 0x61, 0x70, 0x12, 0x40, 0x0a, 0x04, 0x63, 0x61, 0x6c, 0x6c, 0x18, 0x04, 0x20, 0x01, 0x28,
-	0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
-	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
-	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x61, 0x6c, 0x6c, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52,
-	0x04, 0x63, 0x61, 0x6c, 0x6c, 0x12, 0x49, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65,
-	0x18, 0x05, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
+	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75,
+	0x65, 0x52, 0x02, 0x62, 0x79, 0x12, 0x50, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x5f, 0x73, 0x65, 0x74,
+	0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
 	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
-	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67,
-	0x65, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65,
-	0x12, 0x52, 0x0a, 0x0a, 0x76, 0x61, 0x6c, 0x69, 0x64, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x06,
-	0x20, 0x01, 0x28, 0x0b, 0x32, 0x30, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
-	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x6c, 0x69, 0x64, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x0a, 0x76, 0x61, 0x6c, 0x69, 0x64, 0x61,
-	0x74, 0x69, 0x6f, 0x6e, 0x12, 0x40, 0x0a, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x07, 0x20, 0x01,
-	0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
-	0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70,
-	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00,
-	0x52, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x42, 0x06, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72, 0x22, 0xe6,
-	0x01, 0x0a, 0x04, 0x54, 0x79, 0x70, 0x65, 0x12, 0x3e, 0x0a, 0x04, 0x6b, 0x69, 0x6e, 0x64, 0x18,
-	0x01, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
+	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62,
+	0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x53, 0x65, 0x74, 0x52,
+	0x06, 0x64, 0x65, 0x66, 0x53, 0x65, 0x74, 0x22, 0x80, 0x02, 0x0a, 0x17, 0x56, 0x61, 0x72, 0x69,
+	0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72,
+	0x6f, 0x75, 0x70, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52,
+	0x02, 0x69, 0x64, 0x12, 0x65, 0x0a, 0x0a, 0x73, 0x65, 0x71, 0x75, 0x65, 0x6e, 0x74, 0x69, 0x61,
+	0x6c, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x43, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
+	0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
+	0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x53, 0x65, 0x71, 0x75, 0x65,
+	0x6e, 0x74, 0x69, 0x61, 0x6c, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66,
+	0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x48, 0x00, 0x52, 0x0a,
+	0x73, 0x65, 0x71, 0x75, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x12, 0x65, 0x0a, 0x0a, 0x63, 0x6f,
+	0x6e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x43,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x43, 0x6f, 0x6e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x56, 0x61, 0x72, 0x69,
+	0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72,
+	0x6f, 0x75, 0x70, 0x48, 0x00, 0x52, 0x0a, 0x63, 0x6f, 0x6e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e,
+	0x74, 0x42, 0x07, 0x0a, 0x05, 0x67, 0x72, 0x6f, 0x75, 0x70, 0x22, 0x4b, 0x0a, 0x21, 0x53, 0x65,
+	0x71, 0x75, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65,
+	0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x12,
+	0x14, 0x0a, 0x05, 0x73, 0x74, 0x61, 0x72, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05,
+	0x73, 0x74, 0x61, 0x72, 0x74, 0x12, 0x10, 0x0a, 0x03, 0x65, 0x6e, 0x64, 0x18, 0x02, 0x20, 0x01,
+	0x28, 0x09, 0x52, 0x03, 0x65, 0x6e, 0x64, 0x22, 0x4d, 0x0a, 0x21, 0x43, 0x6f, 0x6e, 0x63, 0x75,
+	0x72, 0x72, 0x65, 0x6e, 0x74, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66,
+	0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x47, 0x72, 0x6f, 0x75, 0x70, 0x12, 0x16, 0x0a, 0x06,
+	0x73, 0x74, 0x61, 0x72, 0x74, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x09, 0x52, 0x06, 0x73, 0x74,
+	0x61, 0x72, 0x74, 0x73, 0x12, 0x10, 0x0a, 0x03, 0x65, 0x6e, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28,
+	0x09, 0x52, 0x03, 0x65, 0x6e, 0x64, 0x22, 0x7c, 0x0a, 0x16, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67,
+	0x65, 0x44, 0x65, 0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68,
+	0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64,
+	0x12, 0x52, 0x0a, 0x05, 0x72, 0x6f, 0x6f, 0x74, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32,
+	0x3c, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x44, 0x65, 0x70, 0x65, 0x6e, 0x64,
+	0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e, 0x6f, 0x64, 0x65, 0x52, 0x05, 0x72,
+	0x6f, 0x6f, 0x74, 0x73, 0x22, 0xd4, 0x01, 0x0a, 0x1a, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65,
+	0x44, 0x65, 0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e,
+	0x6f, 0x64, 0x65, 0x12, 0x58, 0x0a, 0x08, 0x63, 0x68, 0x69, 0x6c, 0x64, 0x72, 0x65, 0x6e, 0x18,
+	0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x3c, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
 	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x4b, 0x69, 0x6e,
-	0x64, 0x52, 0x04, 0x6b, 0x69, 0x6e, 0x64, 0x12, 0x1a, 0x0a, 0x08, 0x72, 0x65, 0x70, 0x65, 0x61,
-	0x74, 0x65, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08, 0x52, 0x08, 0x72, 0x65, 0x70, 0x65, 0x61,
-	0x74, 0x65, 0x64, 0x12, 0x17, 0x0a, 0x07, 0x69, 0x73, 0x5f, 0x6e, 0x75, 0x6c, 0x6c, 0x18, 0x03,
-	0x20, 0x01, 0x28, 0x08, 0x52, 0x06, 0x69, 0x73, 0x4e, 0x75, 0x6c, 0x6c, 0x12, 0x1f, 0x0a, 0x0a,
-	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09,
-	0x48, 0x00, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x19, 0x0a,
-	0x07, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09, 0x48, 0x00,
-	0x52, 0x06, 0x65, 0x6e, 0x75, 0x6d, 0x49, 0x64, 0x12, 0x26, 0x0a, 0x0e, 0x6f, 0x6e, 0x65, 0x6f,
-	0x66, 0x5f, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69, 0x64, 0x18, 0x06, 0x20, 0x01, 0x28, 0x09,
-	0x48, 0x00, 0x52, 0x0c, 0x6f, 0x6e, 0x65, 0x6f, 0x66, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x49, 0x64,
-	0x42, 0x05, 0x0a, 0x03, 0x72, 0x65, 0x66, 0x22, 0x58, 0x0a, 0x08, 0x43, 0x45, 0x4c, 0x56, 0x61,
-	0x6c, 0x75, 0x65, 0x12, 0x12, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72, 0x18, 0x01, 0x20, 0x01, 0x28,
-	0x09, 0x52, 0x04, 0x65, 0x78, 0x70, 0x72, 0x12, 0x38, 0x0a, 0x03, 0x6f, 0x75, 0x74, 0x18, 0x02,
-	0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
+	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65,
+	0x44, 0x65, 0x70, 0x65, 0x6e, 0x64, 0x65, 0x6e, 0x63, 0x79, 0x47, 0x72, 0x61, 0x70, 0x68, 0x4e,
+	0x6f, 0x64, 0x65, 0x52, 0x08, 0x63, 0x68, 0x69, 0x6c, 0x64, 0x72, 0x65, 0x6e, 0x12, 0x26, 0x0a,
+	0x0f, 0x62, 0x61, 0x73, 0x65, 0x5f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64,
+	0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0d, 0x62, 0x61, 0x73, 0x65, 0x4d, 0x65, 0x73, 0x73,
+	0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x34, 0x0a, 0x16, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c,
+	0x65, 0x5f, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x69, 0x64, 0x18,
+	0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x14, 0x76, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44,
+	0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x49, 0x64, 0x22, 0xf2, 0x03, 0x0a, 0x0c,
+	0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x45, 0x78, 0x70, 0x72, 0x12, 0x3a, 0x0a, 0x04,
+	0x74, 0x79, 0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70,
+	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79,
+	0x70, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12, 0x3c, 0x0a, 0x02, 0x62, 0x79, 0x18, 0x02,
+	0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
 	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x52, 0x03, 0x6f, 0x75,
-	0x74, 0x22, 0x98, 0x01, 0x0a, 0x07, 0x4d, 0x61, 0x70, 0x45, 0x78, 0x70, 0x72, 0x12, 0x46, 0x0a,
-	0x08, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32,
-	0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
-	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
-	0x69, 0x6e, 0x2e, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x52, 0x08, 0x69, 0x74, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x12, 0x45, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72, 0x18, 0x02, 0x20,
-	0x01, 0x28, 0x0b, 0x32, 0x31, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
+	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65,
+	0x48, 0x00, 0x52, 0x02, 0x62, 0x79, 0x12, 0x3d, 0x0a, 0x03, 0x6d, 0x61, 0x70, 0x18, 0x03, 0x20,
+	0x01, 0x28, 0x0b, 0x32, 0x29, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
 	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
-	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x61, 0x70, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74,
-	0x6f, 0x72, 0x45, 0x78, 0x70, 0x72, 0x52, 0x04, 0x65, 0x78, 0x70, 0x72, 0x22, 0x3b, 0x0a, 0x08,
-	0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65,
-	0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x1b, 0x0a, 0x09,
-	0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52,
-	0x08, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x49, 0x64, 0x22, 0xa0, 0x02, 0x0a, 0x0f, 0x4d, 0x61,
-	0x70, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x45, 0x78, 0x70, 0x72, 0x12, 0x3a, 0x0a,
-	0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72,
-	0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65,
-	0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54,
-	0x79, 0x70, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12, 0x3c, 0x0a, 0x02, 0x62, 0x79, 0x18,
-	0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
-	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75,
-	0x65, 0x48, 0x00, 0x52, 0x02, 0x62, 0x79, 0x12, 0x49, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61,
-	0x67, 0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
+	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x61, 0x70, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00,
+	0x52, 0x03, 0x6d, 0x61, 0x70, 0x12, 0x40, 0x0a, 0x04, 0x63, 0x61, 0x6c, 0x6c, 0x18, 0x04, 0x20,
+	0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
+	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
+	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x61, 0x6c, 0x6c, 0x45, 0x78, 0x70, 0x72, 0x48,
+	0x00, 0x52, 0x04, 0x63, 0x61, 0x6c, 0x6c, 0x12, 0x49, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61,
+	0x67, 0x65, 0x18, 0x05, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
 	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
 	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x65, 0x73, 0x73,
 	0x61, 0x67, 0x65, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61,
-	0x67, 0x65, 0x12, 0x40, 0x0a, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b,
-	0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75,
-	0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x04,
-	0x65, 0x6e, 0x75, 0x6d, 0x42, 0x06, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72, 0x22, 0xab, 0x02, 0x0a,
-	0x08, 0x43, 0x61, 0x6c, 0x6c, 0x45, 0x78, 0x70, 0x72, 0x12, 0x1b, 0x0a, 0x09, 0x6d, 0x65, 0x74,
-	0x68, 0x6f, 0x64, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x08, 0x6d, 0x65,
-	0x74, 0x68, 0x6f, 0x64, 0x49, 0x64, 0x12, 0x43, 0x0a, 0x07, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73,
-	0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x29, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
-	0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
-	0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x52, 0x65, 0x71, 0x75, 0x65,
-	0x73, 0x74, 0x52, 0x07, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x12, 0x33, 0x0a, 0x07, 0x74,
-	0x69, 0x6d, 0x65, 0x6f, 0x75, 0x74, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67,
-	0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44,
-	0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x07, 0x74, 0x69, 0x6d, 0x65, 0x6f, 0x75, 0x74,
-	0x12, 0x43, 0x0a, 0x05, 0x72, 0x65, 0x74, 0x72, 0x79, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32,
-	0x2d, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
-	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
-	0x69, 0x6e, 0x2e, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x52, 0x05,
-	0x72, 0x65, 0x74, 0x72, 0x79, 0x12, 0x43, 0x0a, 0x06, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x18,
-	0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2b, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
-	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72,
-	0x6f, 0x72, 0x52, 0x06, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x22, 0x86, 0x02, 0x0a, 0x0b, 0x52,
-	0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x12, 0x53, 0x0a, 0x08, 0x63, 0x6f,
-	0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x35, 0x2e, 0x67,
-	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
-	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x43, 0x6f, 0x6e, 0x73, 0x74,
-	0x61, 0x6e, 0x74, 0x48, 0x00, 0x52, 0x08, 0x63, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x12,
-	0x5c, 0x0a, 0x0b, 0x65, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x18, 0x02,
-	0x20, 0x01, 0x28, 0x0b, 0x32, 0x38, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
+	0x67, 0x65, 0x12, 0x52, 0x0a, 0x0a, 0x76, 0x61, 0x6c, 0x69, 0x64, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x18, 0x06, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x30, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
+	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
+	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x6c, 0x69, 0x64, 0x61,
+	0x74, 0x69, 0x6f, 0x6e, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x0a, 0x76, 0x61, 0x6c, 0x69,
+	0x64, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x40, 0x0a, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x07,
+	0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
 	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c,
-	0x69, 0x63, 0x79, 0x45, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x48, 0x00,
-	0x52, 0x0b, 0x65, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x12, 0x3a, 0x0a,
-	0x02, 0x69, 0x66, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63,
+	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70, 0x72,
+	0x48, 0x00, 0x52, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x42, 0x06, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72,
+	0x22, 0x99, 0x02, 0x0a, 0x04, 0x54, 0x79, 0x70, 0x65, 0x12, 0x3e, 0x0a, 0x04, 0x6b, 0x69, 0x6e,
+	0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
+	0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
+	0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x4b,
+	0x69, 0x6e, 0x64, 0x52, 0x04, 0x6b, 0x69, 0x6e, 0x64, 0x12, 0x1a, 0x0a, 0x08, 0x72, 0x65, 0x70,
+	0x65, 0x61, 0x74, 0x65, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08, 0x52, 0x08, 0x72, 0x65, 0x70,
+	0x65, 0x61, 0x74, 0x65, 0x64, 0x12, 0x17, 0x0a, 0x07, 0x69, 0x73, 0x5f, 0x6e, 0x75, 0x6c, 0x6c,
+	0x18, 0x03, 0x20, 0x01, 0x28, 0x08, 0x52, 0x06, 0x69, 0x73, 0x4e, 0x75, 0x6c, 0x6c, 0x12, 0x1f,
+	0x0a, 0x0a, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x04, 0x20, 0x01,
+	0x28, 0x09, 0x48, 0x00, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x12,
+	0x19, 0x0a, 0x07, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09,
+	0x48, 0x00, 0x52, 0x06, 0x65, 0x6e, 0x75, 0x6d, 0x49, 0x64, 0x12, 0x26, 0x0a, 0x0e, 0x6f, 0x6e,
+	0x65, 0x6f, 0x66, 0x5f, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69, 0x64, 0x18, 0x06, 0x20, 0x01,
+	0x28, 0x09, 0x48, 0x00, 0x52, 0x0c, 0x6f, 0x6e, 0x65, 0x6f, 0x66, 0x46, 0x69, 0x65, 0x6c, 0x64,
+	0x49, 0x64, 0x12, 0x31, 0x0a, 0x15, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x5f, 0x6f, 0x6e, 0x65,
+	0x6f, 0x66, 0x5f, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69, 0x64, 0x18, 0x07, 0x20, 0x01, 0x28,
+	0x09, 0x52, 0x12, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x4f, 0x6e, 0x65, 0x6f, 0x66, 0x46, 0x69,
+	0x65, 0x6c, 0x64, 0x49, 0x64, 0x42, 0x05, 0x0a, 0x03, 0x72, 0x65, 0x66, 0x22, 0x58, 0x0a, 0x08,
+	0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x12, 0x0a, 0x04, 0x65, 0x78, 0x70, 0x72,
+	0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x65, 0x78, 0x70, 0x72, 0x12, 0x38, 0x0a, 0x03,
+	0x6f, 0x75, 0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63,
 	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c,
-	0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x42, 0x08, 0x0a, 0x06, 0x70, 0x6f, 0x6c,
-	0x69, 0x63, 0x79, 0x22, 0x6d, 0x0a, 0x13, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69,
-	0x63, 0x79, 0x43, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x12, 0x35, 0x0a, 0x08, 0x69, 0x6e,
-	0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67,
-	0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44,
-	0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x08, 0x69, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61,
-	0x6c, 0x12, 0x1f, 0x0a, 0x0b, 0x6d, 0x61, 0x78, 0x5f, 0x72, 0x65, 0x74, 0x72, 0x69, 0x65, 0x73,
-	0x18, 0x02, 0x20, 0x01, 0x28, 0x04, 0x52, 0x0a, 0x6d, 0x61, 0x78, 0x52, 0x65, 0x74, 0x72, 0x69,
-	0x65, 0x73, 0x22, 0xd5, 0x02, 0x0a, 0x16, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69,
-	0x63, 0x79, 0x45, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69, 0x61, 0x6c, 0x12, 0x44, 0x0a,
-	0x10, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x61, 0x6c, 0x5f, 0x69, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61,
-	0x6c, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65,
-	0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x52, 0x0f, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x61, 0x6c, 0x49, 0x6e, 0x74, 0x65, 0x72,
-	0x76, 0x61, 0x6c, 0x12, 0x31, 0x0a, 0x14, 0x72, 0x61, 0x6e, 0x64, 0x6f, 0x6d, 0x69, 0x7a, 0x61,
-	0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x66, 0x61, 0x63, 0x74, 0x6f, 0x72, 0x18, 0x02, 0x20, 0x01, 0x28,
-	0x01, 0x52, 0x13, 0x72, 0x61, 0x6e, 0x64, 0x6f, 0x6d, 0x69, 0x7a, 0x61, 0x74, 0x69, 0x6f, 0x6e,
-	0x46, 0x61, 0x63, 0x74, 0x6f, 0x72, 0x12, 0x1e, 0x0a, 0x0a, 0x6d, 0x75, 0x6c, 0x74, 0x69, 0x70,
-	0x6c, 0x69, 0x65, 0x72, 0x18, 0x03, 0x20, 0x01, 0x28, 0x01, 0x52, 0x0a, 0x6d, 0x75, 0x6c, 0x74,
-	0x69, 0x70, 0x6c, 0x69, 0x65, 0x72, 0x12, 0x3c, 0x0a, 0x0c, 0x6d, 0x61, 0x78, 0x5f, 0x69, 0x6e,
-	0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67,
-	0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44,
-	0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0b, 0x6d, 0x61, 0x78, 0x49, 0x6e, 0x74, 0x65,
-	0x72, 0x76, 0x61, 0x6c, 0x12, 0x1f, 0x0a, 0x0b, 0x6d, 0x61, 0x78, 0x5f, 0x72, 0x65, 0x74, 0x72,
-	0x69, 0x65, 0x73, 0x18, 0x05, 0x20, 0x01, 0x28, 0x04, 0x52, 0x0a, 0x6d, 0x61, 0x78, 0x52, 0x65,
-	0x74, 0x72, 0x69, 0x65, 0x73, 0x12, 0x43, 0x0a, 0x10, 0x6d, 0x61, 0x78, 0x5f, 0x65, 0x6c, 0x61,
-	0x70, 0x73, 0x65, 0x64, 0x5f, 0x74, 0x69, 0x6d, 0x65, 0x18, 0x06, 0x20, 0x01, 0x28, 0x0b, 0x32,
-	0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75,
-	0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0e, 0x6d, 0x61, 0x78, 0x45,
-	0x6c, 0x61, 0x70, 0x73, 0x65, 0x64, 0x54, 0x69, 0x6d, 0x65, 0x22, 0x62, 0x0a, 0x07, 0x52, 0x65,
-	0x71, 0x75, 0x65, 0x73, 0x74, 0x12, 0x3e, 0x0a, 0x04, 0x61, 0x72, 0x67, 0x73, 0x18, 0x01, 0x20,
-	0x03, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
-	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
-	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x41, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x52,
-	0x04, 0x61, 0x72, 0x67, 0x73, 0x12, 0x17, 0x0a, 0x07, 0x74, 0x79, 0x70, 0x65, 0x5f, 0x69, 0x64,
-	0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x74, 0x79, 0x70, 0x65, 0x49, 0x64, 0x22, 0x6c,
-	0x0a, 0x0b, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x45, 0x78, 0x70, 0x72, 0x12, 0x1d, 0x0a,
-	0x0a, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28,
-	0x09, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x3e, 0x0a, 0x04,
-	0x61, 0x72, 0x67, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70,
+	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70,
+	0x65, 0x52, 0x03, 0x6f, 0x75, 0x74, 0x22, 0x98, 0x01, 0x0a, 0x07, 0x4d, 0x61, 0x70, 0x45, 0x78,
+	0x70, 0x72, 0x12, 0x46, 0x0a, 0x08, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x18, 0x01,
+	0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
+	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
+	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
+	0x52, 0x08, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x12, 0x45, 0x0a, 0x04, 0x65, 0x78,
+	0x70, 0x72, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x31, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
+	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4d, 0x61, 0x70, 0x49,
+	0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x45, 0x78, 0x70, 0x72, 0x52, 0x04, 0x65, 0x78, 0x70,
+	0x72, 0x22, 0x3b, 0x0a, 0x08, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x12, 0x12, 0x0a,
+	0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d,
+	0x65, 0x12, 0x1b, 0x0a, 0x09, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x02,
+	0x20, 0x01, 0x28, 0x09, 0x52, 0x08, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x49, 0x64, 0x22, 0xa0,
+	0x02, 0x0a, 0x0f, 0x4d, 0x61, 0x70, 0x49, 0x74, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x45, 0x78,
+	0x70, 0x72, 0x12, 0x3a, 0x0a, 0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b,
+	0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69,
+	0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75,
+	0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12, 0x3c,
+	0x0a, 0x02, 0x62, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70,
 	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
-	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x41, 0x72,
-	0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x52, 0x04, 0x61, 0x72, 0x67, 0x73, 0x22, 0x5f, 0x0a, 0x08,
-	0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70, 0x72, 0x12, 0x17, 0x0a, 0x07, 0x65, 0x6e, 0x75, 0x6d,
-	0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x65, 0x6e, 0x75, 0x6d, 0x49,
-	0x64, 0x12, 0x3a, 0x0a, 0x02, 0x62, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45,
+	0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x48, 0x00, 0x52, 0x02, 0x62, 0x79, 0x12, 0x49, 0x0a, 0x07,
+	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2d, 0x2e,
 	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
 	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x62, 0x79, 0x22, 0xd5, 0x01,
-	0x0a, 0x08, 0x41, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61,
-	0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x3a,
-	0x0a, 0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67,
-	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
-	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x54, 0x79, 0x70, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12, 0x3d, 0x0a, 0x05, 0x76, 0x61,
-	0x6c, 0x75, 0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x27, 0x2e, 0x67, 0x72, 0x70, 0x63,
-	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x6c,
-	0x75, 0x65, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66, 0x18,
+	0x2e, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x45, 0x78, 0x70, 0x72, 0x48, 0x00, 0x52, 0x07,
+	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x12, 0x40, 0x0a, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x18,
 	0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
 	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75,
-	0x65, 0x52, 0x02, 0x69, 0x66, 0x22, 0x5d, 0x0a, 0x05, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x16,
-	0x0a, 0x06, 0x69, 0x6e, 0x6c, 0x69, 0x6e, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x08, 0x52, 0x06,
-	0x69, 0x6e, 0x6c, 0x69, 0x6e, 0x65, 0x12, 0x3c, 0x0a, 0x03, 0x63, 0x65, 0x6c, 0x18, 0x02, 0x20,
-	0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72,
-	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e,
-	0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52,
-	0x03, 0x63, 0x65, 0x6c, 0x22, 0x67, 0x0a, 0x0e, 0x56, 0x61, 0x6c, 0x69, 0x64, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x45, 0x78, 0x70, 0x72, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x01,
-	0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x41, 0x0a, 0x05, 0x65, 0x72,
-	0x72, 0x6f, 0x72, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2b, 0x2e, 0x67, 0x72, 0x70, 0x63,
-	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x47, 0x52, 0x50,
-	0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x52, 0x05, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x22, 0xd4, 0x03,
-	0x0a, 0x09, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x12, 0x50, 0x0a, 0x07, 0x64,
-	0x65, 0x66, 0x5f, 0x73, 0x65, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67,
+	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70,
+	0x72, 0x48, 0x00, 0x52, 0x04, 0x65, 0x6e, 0x75, 0x6d, 0x42, 0x06, 0x0a, 0x04, 0x65, 0x78, 0x70,
+	0x72, 0x22, 0xab, 0x02, 0x0a, 0x08, 0x43, 0x61, 0x6c, 0x6c, 0x45, 0x78, 0x70, 0x72, 0x12, 0x1b,
+	0x0a, 0x09, 0x6d, 0x65, 0x74, 0x68, 0x6f, 0x64, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28,
+	0x09, 0x52, 0x08, 0x6d, 0x65, 0x74, 0x68, 0x6f, 0x64, 0x49, 0x64, 0x12, 0x43, 0x0a, 0x07, 0x72,
+	0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x29, 0x2e, 0x67,
 	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
 	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69,
-	0x6f, 0x6e, 0x53, 0x65, 0x74, 0x52, 0x06, 0x64, 0x65, 0x66, 0x53, 0x65, 0x74, 0x12, 0x3a, 0x0a,
-	0x02, 0x69, 0x66, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63,
+	0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x52, 0x07, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
+	0x12, 0x33, 0x0a, 0x07, 0x74, 0x69, 0x6d, 0x65, 0x6f, 0x75, 0x74, 0x18, 0x03, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f,
+	0x62, 0x75, 0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x07, 0x74, 0x69,
+	0x6d, 0x65, 0x6f, 0x75, 0x74, 0x12, 0x43, 0x0a, 0x05, 0x72, 0x65, 0x74, 0x72, 0x79, 0x18, 0x04,
+	0x20, 0x01, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
+	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
+	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c,
+	0x69, 0x63, 0x79, 0x52, 0x05, 0x72, 0x65, 0x74, 0x72, 0x79, 0x12, 0x43, 0x0a, 0x06, 0x65, 0x72,
+	0x72, 0x6f, 0x72, 0x73, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2b, 0x2e, 0x67, 0x72, 0x70,
+	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x47, 0x52,
+	0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x52, 0x06, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x22,
+	0x86, 0x02, 0x0a, 0x0b, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x12,
+	0x53, 0x0a, 0x08, 0x63, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x35, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
+	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
+	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x52, 0x65, 0x74, 0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79,
+	0x43, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x48, 0x00, 0x52, 0x08, 0x63, 0x6f, 0x6e, 0x73,
+	0x74, 0x61, 0x6e, 0x74, 0x12, 0x5c, 0x0a, 0x0b, 0x65, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74,
+	0x69, 0x61, 0x6c, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x38, 0x2e, 0x67, 0x72, 0x70, 0x63,
 	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c,
-	0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12, 0x29, 0x0a, 0x04, 0x63, 0x6f, 0x64,
-	0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x10, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65,
-	0x2e, 0x72, 0x70, 0x63, 0x2e, 0x43, 0x6f, 0x64, 0x65, 0x48, 0x00, 0x52, 0x04, 0x63, 0x6f, 0x64,
-	0x65, 0x88, 0x01, 0x01, 0x12, 0x44, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x18,
-	0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
-	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75,
-	0x65, 0x52, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x12, 0x4b, 0x0a, 0x07, 0x64, 0x65,
-	0x74, 0x61, 0x69, 0x6c, 0x73, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x31, 0x2e, 0x67, 0x72,
+	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x52, 0x65, 0x74,
+	0x72, 0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x45, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74,
+	0x69, 0x61, 0x6c, 0x48, 0x00, 0x52, 0x0b, 0x65, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69,
+	0x61, 0x6c, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x42, 0x08,
+	0x0a, 0x06, 0x70, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x22, 0x6d, 0x0a, 0x13, 0x52, 0x65, 0x74, 0x72,
+	0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x43, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74, 0x12,
+	0x35, 0x0a, 0x08, 0x69, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x18, 0x01, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f,
+	0x62, 0x75, 0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x08, 0x69, 0x6e,
+	0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x12, 0x1f, 0x0a, 0x0b, 0x6d, 0x61, 0x78, 0x5f, 0x72, 0x65,
+	0x74, 0x72, 0x69, 0x65, 0x73, 0x18, 0x02, 0x20, 0x01, 0x28, 0x04, 0x52, 0x0a, 0x6d, 0x61, 0x78,
+	0x52, 0x65, 0x74, 0x72, 0x69, 0x65, 0x73, 0x22, 0xd5, 0x02, 0x0a, 0x16, 0x52, 0x65, 0x74, 0x72,
+	0x79, 0x50, 0x6f, 0x6c, 0x69, 0x63, 0x79, 0x45, 0x78, 0x70, 0x6f, 0x6e, 0x65, 0x6e, 0x74, 0x69,
+	0x61, 0x6c, 0x12, 0x44, 0x0a, 0x10, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x61, 0x6c, 0x5f, 0x69, 0x6e,
+	0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67,
+	0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44,
+	0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0f, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x61, 0x6c,
+	0x49, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x12, 0x31, 0x0a, 0x14, 0x72, 0x61, 0x6e, 0x64,
+	0x6f, 0x6d, 0x69, 0x7a, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x66, 0x61, 0x63, 0x74, 0x6f, 0x72,
+	0x18, 0x02, 0x20, 0x01, 0x28, 0x01, 0x52, 0x13, 0x72, 0x61, 0x6e, 0x64, 0x6f, 0x6d, 0x69, 0x7a,
+	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x63, 0x74, 0x6f, 0x72, 0x12, 0x1e, 0x0a, 0x0a, 0x6d,
+	0x75, 0x6c, 0x74, 0x69, 0x70, 0x6c, 0x69, 0x65, 0x72, 0x18, 0x03, 0x20, 0x01, 0x28, 0x01, 0x52,
+	0x0a, 0x6d, 0x75, 0x6c, 0x74, 0x69, 0x70, 0x6c, 0x69, 0x65, 0x72, 0x12, 0x3c, 0x0a, 0x0c, 0x6d,
+	0x61, 0x78, 0x5f, 0x69, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x18, 0x04, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f,
+	0x62, 0x75, 0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0b, 0x6d, 0x61,
+	0x78, 0x49, 0x6e, 0x74, 0x65, 0x72, 0x76, 0x61, 0x6c, 0x12, 0x1f, 0x0a, 0x0b, 0x6d, 0x61, 0x78,
+	0x5f, 0x72, 0x65, 0x74, 0x72, 0x69, 0x65, 0x73, 0x18, 0x05, 0x20, 0x01, 0x28, 0x04, 0x52, 0x0a,
+	0x6d, 0x61, 0x78, 0x52, 0x65, 0x74, 0x72, 0x69, 0x65, 0x73, 0x12, 0x43, 0x0a, 0x10, 0x6d, 0x61,
+	0x78, 0x5f, 0x65, 0x6c, 0x61, 0x70, 0x73, 0x65, 0x64, 0x5f, 0x74, 0x69, 0x6d, 0x65, 0x18, 0x06,
+	0x20, 0x01, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x70, 0x72,
+	0x6f, 0x74, 0x6f, 0x62, 0x75, 0x66, 0x2e, 0x44, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52,
+	0x0e, 0x6d, 0x61, 0x78, 0x45, 0x6c, 0x61, 0x70, 0x73, 0x65, 0x64, 0x54, 0x69, 0x6d, 0x65, 0x22,
+	0x62, 0x0a, 0x07, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x12, 0x3e, 0x0a, 0x04, 0x61, 0x72,
+	0x67, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
+	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x41, 0x72, 0x67, 0x75,
+	0x6d, 0x65, 0x6e, 0x74, 0x52, 0x04, 0x61, 0x72, 0x67, 0x73, 0x12, 0x17, 0x0a, 0x07, 0x74, 0x79,
+	0x70, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x74, 0x79, 0x70,
+	0x65, 0x49, 0x64, 0x22, 0x6c, 0x0a, 0x0b, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x45, 0x78,
+	0x70, 0x72, 0x12, 0x1d, 0x0a, 0x0a, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64,
+	0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49,
+	0x64, 0x12, 0x3e, 0x0a, 0x04, 0x61, 0x72, 0x67, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32,
+	0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x41, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x52, 0x04, 0x61, 0x72, 0x67,
+	0x73, 0x22, 0x5f, 0x0a, 0x08, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x78, 0x70, 0x72, 0x12, 0x17, 0x0a,
+	0x07, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06,
+	0x65, 0x6e, 0x75, 0x6d, 0x49, 0x64, 0x12, 0x3a, 0x0a, 0x02, 0x62, 0x79, 0x18, 0x02, 0x20, 0x01,
+	0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
+	0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70,
+	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02,
+	0x62, 0x79, 0x22, 0xd5, 0x01, 0x0a, 0x08, 0x41, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x12,
+	0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e,
+	0x61, 0x6d, 0x65, 0x12, 0x3a, 0x0a, 0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
+	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
+	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12,
+	0x3d, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x27,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x3a,
+	0x0a, 0x02, 0x69, 0x66, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70,
+	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45,
+	0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x22, 0x5d, 0x0a, 0x05, 0x56, 0x61,
+	0x6c, 0x75, 0x65, 0x12, 0x16, 0x0a, 0x06, 0x69, 0x6e, 0x6c, 0x69, 0x6e, 0x65, 0x18, 0x01, 0x20,
+	0x01, 0x28, 0x08, 0x52, 0x06, 0x69, 0x6e, 0x6c, 0x69, 0x6e, 0x65, 0x12, 0x3c, 0x0a, 0x03, 0x63,
+	0x65, 0x6c, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
+	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56,
+	0x61, 0x6c, 0x75, 0x65, 0x52, 0x03, 0x63, 0x65, 0x6c, 0x22, 0x67, 0x0a, 0x0e, 0x56, 0x61, 0x6c,
+	0x69, 0x64, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x45, 0x78, 0x70, 0x72, 0x12, 0x12, 0x0a, 0x04, 0x6e,
+	0x61, 0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12,
+	0x41, 0x0a, 0x05, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2b,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x52, 0x05, 0x65, 0x72, 0x72,
+	0x6f, 0x72, 0x22, 0xf1, 0x03, 0x0a, 0x09, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72,
+	0x12, 0x50, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x5f, 0x73, 0x65, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
+	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
+	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66,
+	0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x53, 0x65, 0x74, 0x52, 0x06, 0x64, 0x65, 0x66, 0x53,
+	0x65, 0x74, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12, 0x29,
+	0x0a, 0x04, 0x63, 0x6f, 0x64, 0x65, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x10, 0x2e, 0x67,
+	0x6f, 0x6f, 0x67, 0x6c, 0x65, 0x2e, 0x72, 0x70, 0x63, 0x2e, 0x43, 0x6f, 0x64, 0x65, 0x48, 0x00,
+	0x52, 0x04, 0x63, 0x6f, 0x64, 0x65, 0x88, 0x01, 0x01, 0x12, 0x44, 0x0a, 0x07, 0x6d, 0x65, 0x73,
+	0x73, 0x61, 0x67, 0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70,
+	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45,
+	0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x12,
+	0x4b, 0x0a, 0x07, 0x64, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x73, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b,
+	0x32, 0x31, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69,
+	0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75,
+	0x67, 0x69, 0x6e, 0x2e, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x44, 0x65, 0x74,
+	0x61, 0x69, 0x6c, 0x52, 0x07, 0x64, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x73, 0x12, 0x16, 0x0a, 0x06,
+	0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65, 0x18, 0x06, 0x20, 0x01, 0x28, 0x08, 0x52, 0x06, 0x69, 0x67,
+	0x6e, 0x6f, 0x72, 0x65, 0x12, 0x5a, 0x0a, 0x13, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65, 0x5f, 0x61,
+	0x6e, 0x64, 0x5f, 0x72, 0x65, 0x73, 0x70, 0x6f, 0x6e, 0x73, 0x65, 0x18, 0x07, 0x20, 0x01, 0x28,
+	0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74,
+	0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c,
+	0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x11, 0x69,
+	0x67, 0x6e, 0x6f, 0x72, 0x65, 0x41, 0x6e, 0x64, 0x52, 0x65, 0x73, 0x70, 0x6f, 0x6e, 0x73, 0x65,
+	0x12, 0x1b, 0x0a, 0x09, 0x6c, 0x6f, 0x67, 0x5f, 0x6c, 0x65, 0x76, 0x65, 0x6c, 0x18, 0x08, 0x20,
+	0x01, 0x28, 0x03, 0x52, 0x08, 0x6c, 0x6f, 0x67, 0x4c, 0x65, 0x76, 0x65, 0x6c, 0x42, 0x07, 0x0a,
+	0x05, 0x5f, 0x63, 0x6f, 0x64, 0x65, 0x22, 0xd0, 0x04, 0x0a, 0x0f, 0x47, 0x52, 0x50, 0x43, 0x45,
+	0x72, 0x72, 0x6f, 0x72, 0x44, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x12, 0x50, 0x0a, 0x07, 0x64, 0x65,
+	0x66, 0x5f, 0x73, 0x65, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72,
 	0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65,
-	0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x47,
-	0x52, 0x50, 0x43, 0x45, 0x72, 0x72, 0x6f, 0x72, 0x44, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x52, 0x07,
-	0x64, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x73, 0x12, 0x16, 0x0a, 0x06, 0x69, 0x67, 0x6e, 0x6f, 0x72,
-	0x65, 0x18, 0x06, 0x20, 0x01, 0x28, 0x08, 0x52, 0x06, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65, 0x12,
-	0x5a, 0x0a, 0x13, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65, 0x5f, 0x61, 0x6e, 0x64, 0x5f, 0x72, 0x65,
-	0x73, 0x70, 0x6f, 0x6e, 0x73, 0x65, 0x18, 0x07, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67,
+	0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56,
+	0x61, 0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
+	0x6e, 0x53, 0x65, 0x74, 0x52, 0x06, 0x64, 0x65, 0x66, 0x53, 0x65, 0x74, 0x12, 0x3a, 0x0a, 0x02,
+	0x69, 0x66, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
+	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56,
+	0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12, 0x53, 0x0a, 0x08, 0x6d, 0x65, 0x73, 0x73,
+	0x61, 0x67, 0x65, 0x73, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70,
+	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
+	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61,
+	0x72, 0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e,
+	0x53, 0x65, 0x74, 0x52, 0x08, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73, 0x12, 0x6a, 0x0a,
+	0x15, 0x70, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x66, 0x61,
+	0x69, 0x6c, 0x75, 0x72, 0x65, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x35, 0x2e, 0x67,
 	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
 	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x11, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65,
-	0x41, 0x6e, 0x64, 0x52, 0x65, 0x73, 0x70, 0x6f, 0x6e, 0x73, 0x65, 0x42, 0x07, 0x0a, 0x05, 0x5f,
-	0x63, 0x6f, 0x64, 0x65, 0x22, 0xd0, 0x04, 0x0a, 0x0f, 0x47, 0x52, 0x50, 0x43, 0x45, 0x72, 0x72,
-	0x6f, 0x72, 0x44, 0x65, 0x74, 0x61, 0x69, 0x6c, 0x12, 0x50, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x5f,
-	0x73, 0x65, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70, 0x63,
-	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
-	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x72,
-	0x69, 0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x53,
-	0x65, 0x74, 0x52, 0x06, 0x64, 0x65, 0x66, 0x53, 0x65, 0x74, 0x12, 0x3a, 0x0a, 0x02, 0x69, 0x66,
-	0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
+	0x50, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c,
+	0x75, 0x72, 0x65, 0x52, 0x14, 0x70, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f,
+	0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x73, 0x12, 0x4f, 0x0a, 0x0c, 0x62, 0x61, 0x64,
+	0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x73, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32,
+	0x2c, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x42, 0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x52, 0x0b, 0x62,
+	0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x73, 0x12, 0x61, 0x0a, 0x12, 0x6c, 0x6f,
+	0x63, 0x61, 0x6c, 0x69, 0x7a, 0x65, 0x64, 0x5f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x32, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
 	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
-	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c,
-	0x75, 0x65, 0x52, 0x02, 0x69, 0x66, 0x12, 0x53, 0x0a, 0x08, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67,
-	0x65, 0x73, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x37, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e,
-	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72,
-	0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x56, 0x61, 0x72, 0x69,
-	0x61, 0x62, 0x6c, 0x65, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x53, 0x65,
-	0x74, 0x52, 0x08, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73, 0x12, 0x6a, 0x0a, 0x15, 0x70,
-	0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x66, 0x61, 0x69, 0x6c,
-	0x75, 0x72, 0x65, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x35, 0x2e, 0x67, 0x72, 0x70,
-	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
-	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x50, 0x72,
-	0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72,
-	0x65, 0x52, 0x14, 0x70, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46,
-	0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x73, 0x12, 0x4f, 0x0a, 0x0c, 0x62, 0x61, 0x64, 0x5f, 0x72,
-	0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x73, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2c, 0x2e,
-	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
-	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x42, 0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x52, 0x0b, 0x62, 0x61, 0x64,
-	0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x73, 0x12, 0x61, 0x0a, 0x12, 0x6c, 0x6f, 0x63, 0x61,
-	0x6c, 0x69, 0x7a, 0x65, 0x64, 0x5f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73, 0x18, 0x06,
-	0x20, 0x03, 0x28, 0x0b, 0x32, 0x32, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
+	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4c, 0x6f, 0x63, 0x61, 0x6c, 0x69,
+	0x7a, 0x65, 0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x52, 0x11, 0x6c, 0x6f, 0x63, 0x61,
+	0x6c, 0x69, 0x7a, 0x65, 0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73, 0x12, 0x3a, 0x0a,
+	0x02, 0x62, 0x79, 0x18, 0x07, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63,
+	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
+	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c,
+	0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x02, 0x62, 0x79, 0x22, 0x75, 0x0a, 0x13, 0x50, 0x72, 0x65,
+	0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65,
+	0x12, 0x5e, 0x0a, 0x0a, 0x76, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x01,
+	0x20, 0x03, 0x28, 0x0b, 0x32, 0x3e, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
 	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x4c, 0x6f, 0x63, 0x61, 0x6c, 0x69, 0x7a, 0x65,
-	0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x52, 0x11, 0x6c, 0x6f, 0x63, 0x61, 0x6c, 0x69,
-	0x7a, 0x65, 0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x73, 0x12, 0x3a, 0x0a, 0x02, 0x62,
-	0x79, 0x18, 0x07, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
-	0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
-	0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61,
-	0x6c, 0x75, 0x65, 0x52, 0x02, 0x62, 0x79, 0x22, 0x75, 0x0a, 0x13, 0x50, 0x72, 0x65, 0x63, 0x6f,
-	0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x12, 0x5e,
-	0x0a, 0x0a, 0x76, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x01, 0x20, 0x03,
-	0x28, 0x0b, 0x32, 0x3e, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
+	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x50, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69,
+	0x74, 0x69, 0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x56, 0x69, 0x6f, 0x6c, 0x61,
+	0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0a, 0x76, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73,
+	0x22, 0xf2, 0x01, 0x0a, 0x1c, 0x50, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f,
+	0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x56, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x12, 0x3e, 0x0a, 0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32,
+	0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70,
+	0x65, 0x12, 0x44, 0x0a, 0x07, 0x73, 0x75, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x18, 0x02, 0x20, 0x01,
+	0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
 	0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70,
-	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x50, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69,
-	0x6f, 0x6e, 0x46, 0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x56, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x52, 0x0a, 0x76, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0xf2,
-	0x01, 0x0a, 0x1c, 0x50, 0x72, 0x65, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x46,
-	0x61, 0x69, 0x6c, 0x75, 0x72, 0x65, 0x56, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12,
-	0x3e, 0x0a, 0x04, 0x74, 0x79, 0x70, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e,
+	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x07,
+	0x73, 0x75, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x12, 0x4c, 0x0a, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72,
+	0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67,
+	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
+	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
+	0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72, 0x69,
+	0x70, 0x74, 0x69, 0x6f, 0x6e, 0x22, 0x73, 0x0a, 0x0a, 0x42, 0x61, 0x64, 0x52, 0x65, 0x71, 0x75,
+	0x65, 0x73, 0x74, 0x12, 0x65, 0x0a, 0x10, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x76, 0x69, 0x6f,
+	0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x3a, 0x2e,
 	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
 	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x04, 0x74, 0x79, 0x70, 0x65, 0x12,
-	0x44, 0x0a, 0x07, 0x73, 0x75, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b,
-	0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75,
-	0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x07, 0x73, 0x75,
-	0x62, 0x6a, 0x65, 0x63, 0x74, 0x12, 0x4c, 0x0a, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72, 0x69, 0x70,
-	0x74, 0x69, 0x6f, 0x6e, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70,
-	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
-	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45,
-	0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72, 0x69, 0x70, 0x74,
-	0x69, 0x6f, 0x6e, 0x22, 0x73, 0x0a, 0x0a, 0x42, 0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73,
-	0x74, 0x12, 0x65, 0x0a, 0x10, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x76, 0x69, 0x6f, 0x6c, 0x61,
-	0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x3a, 0x2e, 0x67, 0x72,
-	0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65,
-	0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x42,
+	0x2e, 0x42, 0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x46, 0x69, 0x65, 0x6c, 0x64,
+	0x56, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0f, 0x66, 0x69, 0x65, 0x6c, 0x64,
+	0x56, 0x69, 0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0xaa, 0x01, 0x0a, 0x18, 0x42,
 	0x61, 0x64, 0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x56, 0x69,
-	0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x0f, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x56, 0x69,
-	0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0xaa, 0x01, 0x0a, 0x18, 0x42, 0x61, 0x64,
-	0x52, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74, 0x46, 0x69, 0x65, 0x6c, 0x64, 0x56, 0x69, 0x6f, 0x6c,
-	0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x40, 0x0a, 0x05, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x18, 0x01,
+	0x6f, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x40, 0x0a, 0x05, 0x66, 0x69, 0x65, 0x6c, 0x64,
+	0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
+	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
+	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c,
+	0x75, 0x65, 0x52, 0x05, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x12, 0x4c, 0x0a, 0x0b, 0x64, 0x65, 0x73,
+	0x63, 0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a,
+	0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e,
+	0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69,
+	0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x0b, 0x64, 0x65, 0x73, 0x63,
+	0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x22, 0x70, 0x0a, 0x10, 0x4c, 0x6f, 0x63, 0x61, 0x6c,
+	0x69, 0x7a, 0x65, 0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x12, 0x16, 0x0a, 0x06, 0x6c,
+	0x6f, 0x63, 0x61, 0x6c, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x6c, 0x6f, 0x63,
+	0x61, 0x6c, 0x65, 0x12, 0x44, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x18, 0x02,
 	0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
 	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
 	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65,
-	0x52, 0x05, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x12, 0x4c, 0x0a, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72,
-	0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67,
-	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
-	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
-	0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72, 0x69,
-	0x70, 0x74, 0x69, 0x6f, 0x6e, 0x22, 0x70, 0x0a, 0x10, 0x4c, 0x6f, 0x63, 0x61, 0x6c, 0x69, 0x7a,
-	0x65, 0x64, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x12, 0x16, 0x0a, 0x06, 0x6c, 0x6f, 0x63,
-	0x61, 0x6c, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x6c, 0x6f, 0x63, 0x61, 0x6c,
-	0x65, 0x12, 0x44, 0x0a, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x18, 0x02, 0x20, 0x01,
+	0x52, 0x07, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x22, 0x67, 0x0a, 0x05, 0x4f, 0x6e, 0x65,
+	0x6f, 0x66, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02,
+	0x69, 0x64, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09,
+	0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x1d, 0x0a, 0x0a, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67,
+	0x65, 0x5f, 0x69, 0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73,
+	0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x1b, 0x0a, 0x09, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69,
+	0x64, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x09, 0x52, 0x08, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x49,
+	0x64, 0x73, 0x22, 0xbf, 0x01, 0x0a, 0x04, 0x45, 0x6e, 0x75, 0x6d, 0x12, 0x0e, 0x0a, 0x02, 0x69,
+	0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64, 0x12, 0x12, 0x0a, 0x04, 0x6e,
+	0x61, 0x6d, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12,
+	0x1b, 0x0a, 0x09, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x5f, 0x69, 0x64, 0x73, 0x18, 0x03, 0x20, 0x03,
+	0x28, 0x09, 0x52, 0x08, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x49, 0x64, 0x73, 0x12, 0x1d, 0x0a, 0x0a,
+	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09,
+	0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x17, 0x0a, 0x07, 0x66,
+	0x69, 0x6c, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x66, 0x69,
+	0x6c, 0x65, 0x49, 0x64, 0x12, 0x3e, 0x0a, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x18, 0x06, 0x20, 0x01,
 	0x28, 0x0b, 0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61,
 	0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70,
-	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43, 0x45, 0x4c, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x07,
-	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x22, 0x67, 0x0a, 0x05, 0x4f, 0x6e, 0x65, 0x6f, 0x66,
-	0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64,
-	0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04,
-	0x6e, 0x61, 0x6d, 0x65, 0x12, 0x1d, 0x0a, 0x0a, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f,
-	0x69, 0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x09, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67,
-	0x65, 0x49, 0x64, 0x12, 0x1b, 0x0a, 0x09, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x5f, 0x69, 0x64, 0x73,
-	0x18, 0x04, 0x20, 0x03, 0x28, 0x09, 0x52, 0x08, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x49, 0x64, 0x73,
-	0x22, 0xbf, 0x01, 0x0a, 0x04, 0x45, 0x6e, 0x75, 0x6d, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18,
-	0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d,
-	0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x1b, 0x0a,
-	0x09, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x5f, 0x69, 0x64, 0x73, 0x18, 0x03, 0x20, 0x03, 0x28, 0x09,
-	0x52, 0x08, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x49, 0x64, 0x73, 0x12, 0x1d, 0x0a, 0x0a, 0x6d, 0x65,
-	0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x69, 0x64, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x09,
-	0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x49, 0x64, 0x12, 0x17, 0x0a, 0x07, 0x66, 0x69, 0x6c,
-	0x65, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x66, 0x69, 0x6c, 0x65,
-	0x49, 0x64, 0x12, 0x3e, 0x0a, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x18, 0x06, 0x20, 0x01, 0x28, 0x0b,
-	0x32, 0x2a, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75,
-	0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x75, 0x6c, 0x65, 0x52, 0x04, 0x72, 0x75,
-	0x6c, 0x65, 0x22, 0x8f, 0x01, 0x0a, 0x09, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65,
-	0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64,
+	0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x75, 0x6c, 0x65, 0x52, 0x04,
+	0x72, 0x75, 0x6c, 0x65, 0x22, 0x8f, 0x01, 0x0a, 0x09, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c,
+	0x75, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02,
+	0x69, 0x64, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
+	0x09, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x17, 0x0a, 0x07, 0x65, 0x6e, 0x75, 0x6d,
+	0x5f, 0x69, 0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x65, 0x6e, 0x75, 0x6d, 0x49,
+	0x64, 0x12, 0x43, 0x0a, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32,
+	0x2f, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
+	0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x75, 0x6c, 0x65,
+	0x52, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x22, 0x27, 0x0a, 0x08, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x75,
+	0x6c, 0x65, 0x12, 0x1b, 0x0a, 0x09, 0x61, 0x6c, 0x69, 0x61, 0x73, 0x5f, 0x69, 0x64, 0x73, 0x18,
+	0x01, 0x20, 0x03, 0x28, 0x09, 0x52, 0x08, 0x61, 0x6c, 0x69, 0x61, 0x73, 0x49, 0x64, 0x73, 0x22,
+	0xc1, 0x01, 0x0a, 0x0d, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x75, 0x6c,
+	0x65, 0x12, 0x18, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x18, 0x01, 0x20, 0x01,
+	0x28, 0x08, 0x52, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x12, 0x4a, 0x0a, 0x07, 0x61,
+	0x6c, 0x69, 0x61, 0x73, 0x65, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x30, 0x2e, 0x67,
+	0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67,
+	0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e,
+	0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x41, 0x6c, 0x69, 0x61, 0x73, 0x52, 0x07,
+	0x61, 0x6c, 0x69, 0x61, 0x73, 0x65, 0x73, 0x12, 0x4a, 0x0a, 0x05, 0x61, 0x74, 0x74, 0x72, 0x73,
+	0x18, 0x03, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x34, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65,
+	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
+	0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61,
+	0x6c, 0x75, 0x65, 0x41, 0x74, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65, 0x52, 0x05, 0x61, 0x74,
+	0x74, 0x72, 0x73, 0x22, 0x51, 0x0a, 0x0e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65,
+	0x41, 0x6c, 0x69, 0x61, 0x73, 0x12, 0x22, 0x0a, 0x0d, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x61, 0x6c,
+	0x69, 0x61, 0x73, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0b, 0x65, 0x6e,
+	0x75, 0x6d, 0x41, 0x6c, 0x69, 0x61, 0x73, 0x49, 0x64, 0x12, 0x1b, 0x0a, 0x09, 0x61, 0x6c, 0x69,
+	0x61, 0x73, 0x5f, 0x69, 0x64, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x09, 0x52, 0x08, 0x61, 0x6c,
+	0x69, 0x61, 0x73, 0x49, 0x64, 0x73, 0x22, 0x3e, 0x0a, 0x12, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61,
+	0x6c, 0x75, 0x65, 0x41, 0x74, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65, 0x12, 0x12, 0x0a, 0x04,
+	0x6e, 0x61, 0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65,
 	0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52,
-	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x12, 0x17, 0x0a, 0x07, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x69,
-	0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x06, 0x65, 0x6e, 0x75, 0x6d, 0x49, 0x64, 0x12,
-	0x43, 0x0a, 0x04, 0x72, 0x75, 0x6c, 0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x2f, 0x2e,
+	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x22, 0x9e, 0x01, 0x0a, 0x09, 0x43, 0x45, 0x4c, 0x50, 0x6c,
+	0x75, 0x67, 0x69, 0x6e, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09,
+	0x52, 0x02, 0x69, 0x64, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x02, 0x20, 0x01,
+	0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x20, 0x0a, 0x0b, 0x64, 0x65, 0x73, 0x63,
+	0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0b, 0x64,
+	0x65, 0x73, 0x63, 0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x4b, 0x0a, 0x09, 0x66, 0x75,
+	0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2d, 0x2e,
 	0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
 	0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x75, 0x6c, 0x65, 0x52, 0x04,
-	0x72, 0x75, 0x6c, 0x65, 0x22, 0x27, 0x0a, 0x08, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x75, 0x6c, 0x65,
-	0x12, 0x1b, 0x0a, 0x09, 0x61, 0x6c, 0x69, 0x61, 0x73, 0x5f, 0x69, 0x64, 0x73, 0x18, 0x01, 0x20,
-	0x03, 0x28, 0x09, 0x52, 0x08, 0x61, 0x6c, 0x69, 0x61, 0x73, 0x49, 0x64, 0x73, 0x22, 0xc1, 0x01,
-	0x0a, 0x0d, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x52, 0x75, 0x6c, 0x65, 0x12,
-	0x18, 0x0a, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x18, 0x01, 0x20, 0x01, 0x28, 0x08,
-	0x52, 0x07, 0x64, 0x65, 0x66, 0x61, 0x75, 0x6c, 0x74, 0x12, 0x4a, 0x0a, 0x07, 0x61, 0x6c, 0x69,
-	0x61, 0x73, 0x65, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x30, 0x2e, 0x67, 0x72, 0x70,
-	0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e,
-	0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e,
-	0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x41, 0x6c, 0x69, 0x61, 0x73, 0x52, 0x07, 0x61, 0x6c,
-	0x69, 0x61, 0x73, 0x65, 0x73, 0x12, 0x4a, 0x0a, 0x05, 0x61, 0x74, 0x74, 0x72, 0x73, 0x18, 0x03,
-	0x20, 0x03, 0x28, 0x0b, 0x32, 0x34, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65,
-	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72,
-	0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75,
-	0x65, 0x41, 0x74, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65, 0x52, 0x05, 0x61, 0x74, 0x74, 0x72,
-	0x73, 0x22, 0x51, 0x0a, 0x0e, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75, 0x65, 0x41, 0x6c,
-	0x69, 0x61, 0x73, 0x12, 0x22, 0x0a, 0x0d, 0x65, 0x6e, 0x75, 0x6d, 0x5f, 0x61, 0x6c, 0x69, 0x61,
-	0x73, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0b, 0x65, 0x6e, 0x75, 0x6d,
-	0x41, 0x6c, 0x69, 0x61, 0x73, 0x49, 0x64, 0x12, 0x1b, 0x0a, 0x09, 0x61, 0x6c, 0x69, 0x61, 0x73,
-	0x5f, 0x69, 0x64, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x09, 0x52, 0x08, 0x61, 0x6c, 0x69, 0x61,
-	0x73, 0x49, 0x64, 0x73, 0x22, 0x3e, 0x0a, 0x12, 0x45, 0x6e, 0x75, 0x6d, 0x56, 0x61, 0x6c, 0x75,
-	0x65, 0x41, 0x74, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61,
-	0x6d, 0x65, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14,
-	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x76,
-	0x61, 0x6c, 0x75, 0x65, 0x22, 0x9e, 0x01, 0x0a, 0x09, 0x43, 0x45, 0x4c, 0x50, 0x6c, 0x75, 0x67,
-	0x69, 0x6e, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02,
-	0x69, 0x64, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09,
-	0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x20, 0x0a, 0x0b, 0x64, 0x65, 0x73, 0x63, 0x72, 0x69,
-	0x70, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0b, 0x64, 0x65, 0x73,
-	0x63, 0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x4b, 0x0a, 0x09, 0x66, 0x75, 0x6e, 0x63,
-	0x74, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x67, 0x72,
-	0x70, 0x63, 0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65,
-	0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x43,
-	0x45, 0x4c, 0x46, 0x75, 0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x09, 0x66, 0x75, 0x6e, 0x63,
-	0x74, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0xce, 0x01, 0x0a, 0x0b, 0x43, 0x45, 0x4c, 0x46, 0x75, 0x6e,
-	0x63, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18, 0x01, 0x20,
-	0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18,
-	0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64, 0x12, 0x3a, 0x0a, 0x04, 0x61, 0x72, 0x67,
-	0x73, 0x18, 0x03, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
+	0x2e, 0x43, 0x45, 0x4c, 0x46, 0x75, 0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x52, 0x09, 0x66, 0x75,
+	0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0xce, 0x01, 0x0a, 0x0b, 0x43, 0x45, 0x4c, 0x46,
+	0x75, 0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x12, 0x0a, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x18,
+	0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69,
+	0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x02, 0x69, 0x64, 0x12, 0x3a, 0x0a, 0x04, 0x61,
+	0x72, 0x67, 0x73, 0x18, 0x03, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63,
+	0x2e, 0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65,
+	0x72, 0x61, 0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70,
+	0x65, 0x52, 0x04, 0x61, 0x72, 0x67, 0x73, 0x12, 0x3e, 0x0a, 0x06, 0x72, 0x65, 0x74, 0x75, 0x72,
+	0x6e, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66,
 	0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
 	0x74, 0x6f, 0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x52,
-	0x04, 0x61, 0x72, 0x67, 0x73, 0x12, 0x3e, 0x0a, 0x06, 0x72, 0x65, 0x74, 0x75, 0x72, 0x6e, 0x18,
-	0x04, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x67, 0x72, 0x70, 0x63, 0x2e, 0x66, 0x65, 0x64,
-	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74, 0x6f,
-	0x72, 0x2e, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x2e, 0x54, 0x79, 0x70, 0x65, 0x52, 0x06, 0x72,
-	0x65, 0x74, 0x75, 0x72, 0x6e, 0x12, 0x1f, 0x0a, 0x0b, 0x72, 0x65, 0x63, 0x65, 0x69, 0x76, 0x65,
-	0x72, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x65, 0x63, 0x65,
-	0x69, 0x76, 0x65, 0x72, 0x49, 0x64, 0x2a, 0x6b, 0x0a, 0x0a, 0x41, 0x63, 0x74, 0x69, 0x6f, 0x6e,
-	0x54, 0x79, 0x70, 0x65, 0x12, 0x13, 0x0a, 0x0f, 0x47, 0x45, 0x4e, 0x45, 0x52, 0x41, 0x54, 0x45,
-	0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x00, 0x12, 0x0f, 0x0a, 0x0b, 0x4b, 0x45, 0x45,
-	0x50, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x01, 0x12, 0x11, 0x0a, 0x0d, 0x43, 0x52,
-	0x45, 0x41, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x02, 0x12, 0x11, 0x0a,
-	0x0d, 0x44, 0x45, 0x4c, 0x45, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x03,
-	0x12, 0x11, 0x0a, 0x0d, 0x55, 0x50, 0x44, 0x41, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f,
-	0x4e, 0x10, 0x04, 0x2a, 0xcc, 0x02, 0x0a, 0x08, 0x54, 0x79, 0x70, 0x65, 0x4b, 0x69, 0x6e, 0x64,
-	0x12, 0x10, 0x0a, 0x0c, 0x55, 0x4e, 0x4b, 0x4e, 0x4f, 0x57, 0x4e, 0x5f, 0x54, 0x59, 0x50, 0x45,
-	0x10, 0x00, 0x12, 0x0f, 0x0a, 0x0b, 0x44, 0x4f, 0x55, 0x42, 0x4c, 0x45, 0x5f, 0x54, 0x59, 0x50,
-	0x45, 0x10, 0x01, 0x12, 0x0e, 0x0a, 0x0a, 0x46, 0x4c, 0x4f, 0x41, 0x54, 0x5f, 0x54, 0x59, 0x50,
-	0x45, 0x10, 0x02, 0x12, 0x0e, 0x0a, 0x0a, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f, 0x54, 0x59, 0x50,
-	0x45, 0x10, 0x03, 0x12, 0x0f, 0x0a, 0x0b, 0x55, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f, 0x54, 0x59,
-	0x50, 0x45, 0x10, 0x04, 0x12, 0x0e, 0x0a, 0x0a, 0x49, 0x4e, 0x54, 0x33, 0x32, 0x5f, 0x54, 0x59,
-	0x50, 0x45, 0x10, 0x05, 0x12, 0x10, 0x0a, 0x0c, 0x46, 0x49, 0x58, 0x45, 0x44, 0x36, 0x34, 0x5f,
-	0x54, 0x59, 0x50, 0x45, 0x10, 0x06, 0x12, 0x10, 0x0a, 0x0c, 0x46, 0x49, 0x58, 0x45, 0x44, 0x33,
-	0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x07, 0x12, 0x0d, 0x0a, 0x09, 0x42, 0x4f, 0x4f, 0x4c,
-	0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x08, 0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x54, 0x52, 0x49, 0x4e,
-	0x47, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x09, 0x12, 0x0e, 0x0a, 0x0a, 0x47, 0x52, 0x4f, 0x55,
-	0x50, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0a, 0x12, 0x10, 0x0a, 0x0c, 0x4d, 0x45, 0x53, 0x53,
-	0x41, 0x47, 0x45, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0b, 0x12, 0x0e, 0x0a, 0x0a, 0x42, 0x59,
-	0x54, 0x45, 0x53, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0c, 0x12, 0x0f, 0x0a, 0x0b, 0x55, 0x49,
-	0x4e, 0x54, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0d, 0x12, 0x0d, 0x0a, 0x09, 0x45,
-	0x4e, 0x55, 0x4d, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0e, 0x12, 0x11, 0x0a, 0x0d, 0x53, 0x46,
-	0x49, 0x58, 0x45, 0x44, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0f, 0x12, 0x11, 0x0a,
-	0x0d, 0x53, 0x46, 0x49, 0x58, 0x45, 0x44, 0x36, 0x34, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x10,
-	0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x49, 0x4e, 0x54, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10,
-	0x11, 0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f, 0x54, 0x59, 0x50, 0x45,
-	0x10, 0x12, 0x42, 0x4c, 0x5a, 0x4a, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f, 0x6d,
-	0x2f, 0x6d, 0x65, 0x72, 0x63, 0x61, 0x72, 0x69, 0x2f, 0x67, 0x72, 0x70, 0x63, 0x2d, 0x66, 0x65,
-	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2f, 0x67, 0x72, 0x70, 0x63, 0x2f, 0x66, 0x65,
-	0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2f, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
-	0x6f, 0x72, 0x2f, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x3b, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e,
-	0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
+	0x06, 0x72, 0x65, 0x74, 0x75, 0x72, 0x6e, 0x12, 0x1f, 0x0a, 0x0b, 0x72, 0x65, 0x63, 0x65, 0x69,
+	0x76, 0x65, 0x72, 0x5f, 0x69, 0x64, 0x18, 0x05, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x65,
+	0x63, 0x65, 0x69, 0x76, 0x65, 0x72, 0x49, 0x64, 0x2a, 0x6b, 0x0a, 0x0a, 0x41, 0x63, 0x74, 0x69,
+	0x6f, 0x6e, 0x54, 0x79, 0x70, 0x65, 0x12, 0x13, 0x0a, 0x0f, 0x47, 0x45, 0x4e, 0x45, 0x52, 0x41,
+	0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x00, 0x12, 0x0f, 0x0a, 0x0b, 0x4b,
+	0x45, 0x45, 0x50, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x01, 0x12, 0x11, 0x0a, 0x0d,
+	0x43, 0x52, 0x45, 0x41, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x10, 0x02, 0x12,
+	0x11, 0x0a, 0x0d, 0x44, 0x45, 0x4c, 0x45, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e,
+	0x10, 0x03, 0x12, 0x11, 0x0a, 0x0d, 0x55, 0x50, 0x44, 0x41, 0x54, 0x45, 0x5f, 0x41, 0x43, 0x54,
+	0x49, 0x4f, 0x4e, 0x10, 0x04, 0x2a, 0xcc, 0x02, 0x0a, 0x08, 0x54, 0x79, 0x70, 0x65, 0x4b, 0x69,
+	0x6e, 0x64, 0x12, 0x10, 0x0a, 0x0c, 0x55, 0x4e, 0x4b, 0x4e, 0x4f, 0x57, 0x4e, 0x5f, 0x54, 0x59,
+	0x50, 0x45, 0x10, 0x00, 0x12, 0x0f, 0x0a, 0x0b, 0x44, 0x4f, 0x55, 0x42, 0x4c, 0x45, 0x5f, 0x54,
+	0x59, 0x50, 0x45, 0x10, 0x01, 0x12, 0x0e, 0x0a, 0x0a, 0x46, 0x4c, 0x4f, 0x41, 0x54, 0x5f, 0x54,
+	0x59, 0x50, 0x45, 0x10, 0x02, 0x12, 0x0e, 0x0a, 0x0a, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f, 0x54,
+	0x59, 0x50, 0x45, 0x10, 0x03, 0x12, 0x0f, 0x0a, 0x0b, 0x55, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f,
+	0x54, 0x59, 0x50, 0x45, 0x10, 0x04, 0x12, 0x0e, 0x0a, 0x0a, 0x49, 0x4e, 0x54, 0x33, 0x32, 0x5f,
+	0x54, 0x59, 0x50, 0x45, 0x10, 0x05, 0x12, 0x10, 0x0a, 0x0c, 0x46, 0x49, 0x58, 0x45, 0x44, 0x36,
+	0x34, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x06, 0x12, 0x10, 0x0a, 0x0c, 0x46, 0x49, 0x58, 0x45,
+	0x44, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x07, 0x12, 0x0d, 0x0a, 0x09, 0x42, 0x4f,
+	0x4f, 0x4c, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x08, 0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x54, 0x52,
+	0x49, 0x4e, 0x47, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x09, 0x12, 0x0e, 0x0a, 0x0a, 0x47, 0x52,
+	0x4f, 0x55, 0x50, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0a, 0x12, 0x10, 0x0a, 0x0c, 0x4d, 0x45,
+	0x53, 0x53, 0x41, 0x47, 0x45, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0b, 0x12, 0x0e, 0x0a, 0x0a,
+	0x42, 0x59, 0x54, 0x45, 0x53, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0c, 0x12, 0x0f, 0x0a, 0x0b,
+	0x55, 0x49, 0x4e, 0x54, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0d, 0x12, 0x0d, 0x0a,
+	0x09, 0x45, 0x4e, 0x55, 0x4d, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0e, 0x12, 0x11, 0x0a, 0x0d,
+	0x53, 0x46, 0x49, 0x58, 0x45, 0x44, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50, 0x45, 0x10, 0x0f, 0x12,
+	0x11, 0x0a, 0x0d, 0x53, 0x46, 0x49, 0x58, 0x45, 0x44, 0x36, 0x34, 0x5f, 0x54, 0x59, 0x50, 0x45,
+	0x10, 0x10, 0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x49, 0x4e, 0x54, 0x33, 0x32, 0x5f, 0x54, 0x59, 0x50,
+	0x45, 0x10, 0x11, 0x12, 0x0f, 0x0a, 0x0b, 0x53, 0x49, 0x4e, 0x54, 0x36, 0x34, 0x5f, 0x54, 0x59,
+	0x50, 0x45, 0x10, 0x12, 0x42, 0x4c, 0x5a, 0x4a, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63,
+	0x6f, 0x6d, 0x2f, 0x6d, 0x65, 0x72, 0x63, 0x61, 0x72, 0x69, 0x2f, 0x67, 0x72, 0x70, 0x63, 0x2d,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2f, 0x67, 0x72, 0x70, 0x63, 0x2f,
+	0x66, 0x65, 0x64, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2f, 0x67, 0x65, 0x6e, 0x65, 0x72,
+	0x61, 0x74, 0x6f, 0x72, 0x2f, 0x70, 0x6c, 0x75, 0x67, 0x69, 0x6e, 0x3b, 0x70, 0x6c, 0x75, 0x67,
+	0x69, 0x6e, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
 }
 
 var (
@@ -5961,7 +5995,7 @@ func file_grpc_federation_generator_proto_rawDescGZIP() []byte {
 
 var file_grpc_federation_generator_proto_enumTypes = make([]protoimpl.EnumInfo, 4)
 var file_grpc_federation_generator_proto_msgTypes = make([]protoimpl.MessageInfo, 76)
-var file_grpc_federation_generator_proto_goTypes = []interface{}{
+var file_grpc_federation_generator_proto_goTypes = []any{
 	(ActionType)(0),                         // 0: grpc.federation.generator.plugin.ActionType
 	(TypeKind)(0),                           // 1: grpc.federation.generator.plugin.TypeKind
 	(ProtoCodeGeneratorResponse_Feature)(0), // 2: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.Feature
@@ -6091,95 +6125,96 @@ var file_grpc_federation_generator_proto_depIdxs = []int32{
 	47,  // 42: grpc.federation.generator.plugin.FieldRule.value:type_name -> grpc.federation.generator.plugin.Value
 	26,  // 43: grpc.federation.generator.plugin.FieldRule.auto_bind_field:type_name -> grpc.federation.generator.plugin.AutoBindField
 	27,  // 44: grpc.federation.generator.plugin.FieldRule.oneof_rule:type_name -> grpc.federation.generator.plugin.FieldOneofRule
-	35,  // 45: grpc.federation.generator.plugin.FieldOneofRule.if:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 46: grpc.federation.generator.plugin.FieldOneofRule.by:type_name -> grpc.federation.generator.plugin.CELValue
-	22,  // 47: grpc.federation.generator.plugin.FieldOneofRule.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
-	29,  // 48: grpc.federation.generator.plugin.VariableDefinitionGroup.sequential:type_name -> grpc.federation.generator.plugin.SequentialVariableDefinitionGroup
-	30,  // 49: grpc.federation.generator.plugin.VariableDefinitionGroup.concurrent:type_name -> grpc.federation.generator.plugin.ConcurrentVariableDefinitionGroup
-	32,  // 50: grpc.federation.generator.plugin.MessageDependencyGraph.roots:type_name -> grpc.federation.generator.plugin.MessageDependencyGraphNode
-	32,  // 51: grpc.federation.generator.plugin.MessageDependencyGraphNode.children:type_name -> grpc.federation.generator.plugin.MessageDependencyGraphNode
-	34,  // 52: grpc.federation.generator.plugin.VariableExpr.type:type_name -> grpc.federation.generator.plugin.Type
-	35,  // 53: grpc.federation.generator.plugin.VariableExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
-	36,  // 54: grpc.federation.generator.plugin.VariableExpr.map:type_name -> grpc.federation.generator.plugin.MapExpr
-	39,  // 55: grpc.federation.generator.plugin.VariableExpr.call:type_name -> grpc.federation.generator.plugin.CallExpr
-	44,  // 56: grpc.federation.generator.plugin.VariableExpr.message:type_name -> grpc.federation.generator.plugin.MessageExpr
-	48,  // 57: grpc.federation.generator.plugin.VariableExpr.validation:type_name -> grpc.federation.generator.plugin.ValidationExpr
-	45,  // 58: grpc.federation.generator.plugin.VariableExpr.enum:type_name -> grpc.federation.generator.plugin.EnumExpr
-	1,   // 59: grpc.federation.generator.plugin.Type.kind:type_name -> grpc.federation.generator.plugin.TypeKind
-	34,  // 60: grpc.federation.generator.plugin.CELValue.out:type_name -> grpc.federation.generator.plugin.Type
-	37,  // 61: grpc.federation.generator.plugin.MapExpr.iterator:type_name -> grpc.federation.generator.plugin.Iterator
-	38,  // 62: grpc.federation.generator.plugin.MapExpr.expr:type_name -> grpc.federation.generator.plugin.MapIteratorExpr
-	34,  // 63: grpc.federation.generator.plugin.MapIteratorExpr.type:type_name -> grpc.federation.generator.plugin.Type
-	35,  // 64: grpc.federation.generator.plugin.MapIteratorExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
-	44,  // 65: grpc.federation.generator.plugin.MapIteratorExpr.message:type_name -> grpc.federation.generator.plugin.MessageExpr
-	45,  // 66: grpc.federation.generator.plugin.MapIteratorExpr.enum:type_name -> grpc.federation.generator.plugin.EnumExpr
-	43,  // 67: grpc.federation.generator.plugin.CallExpr.request:type_name -> grpc.federation.generator.plugin.Request
-	80,  // 68: grpc.federation.generator.plugin.CallExpr.timeout:type_name -> google.protobuf.Duration
-	40,  // 69: grpc.federation.generator.plugin.CallExpr.retry:type_name -> grpc.federation.generator.plugin.RetryPolicy
-	49,  // 70: grpc.federation.generator.plugin.CallExpr.errors:type_name -> grpc.federation.generator.plugin.GRPCError
-	41,  // 71: grpc.federation.generator.plugin.RetryPolicy.constant:type_name -> grpc.federation.generator.plugin.RetryPolicyConstant
-	42,  // 72: grpc.federation.generator.plugin.RetryPolicy.exponential:type_name -> grpc.federation.generator.plugin.RetryPolicyExponential
-	35,  // 73: grpc.federation.generator.plugin.RetryPolicy.if:type_name -> grpc.federation.generator.plugin.CELValue
-	80,  // 74: grpc.federation.generator.plugin.RetryPolicyConstant.interval:type_name -> google.protobuf.Duration
-	80,  // 75: grpc.federation.generator.plugin.RetryPolicyExponential.initial_interval:type_name -> google.protobuf.Duration
-	80,  // 76: grpc.federation.generator.plugin.RetryPolicyExponential.max_interval:type_name -> google.protobuf.Duration
-	80,  // 77: grpc.federation.generator.plugin.RetryPolicyExponential.max_elapsed_time:type_name -> google.protobuf.Duration
-	46,  // 78: grpc.federation.generator.plugin.Request.args:type_name -> grpc.federation.generator.plugin.Argument
-	46,  // 79: grpc.federation.generator.plugin.MessageExpr.args:type_name -> grpc.federation.generator.plugin.Argument
-	35,  // 80: grpc.federation.generator.plugin.EnumExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
-	34,  // 81: grpc.federation.generator.plugin.Argument.type:type_name -> grpc.federation.generator.plugin.Type
-	47,  // 82: grpc.federation.generator.plugin.Argument.value:type_name -> grpc.federation.generator.plugin.Value
-	35,  // 83: grpc.federation.generator.plugin.Argument.if:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 84: grpc.federation.generator.plugin.Value.cel:type_name -> grpc.federation.generator.plugin.CELValue
-	49,  // 85: grpc.federation.generator.plugin.ValidationExpr.error:type_name -> grpc.federation.generator.plugin.GRPCError
-	22,  // 86: grpc.federation.generator.plugin.GRPCError.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
-	35,  // 87: grpc.federation.generator.plugin.GRPCError.if:type_name -> grpc.federation.generator.plugin.CELValue
-	81,  // 88: grpc.federation.generator.plugin.GRPCError.code:type_name -> google.rpc.Code
-	35,  // 89: grpc.federation.generator.plugin.GRPCError.message:type_name -> grpc.federation.generator.plugin.CELValue
-	50,  // 90: grpc.federation.generator.plugin.GRPCError.details:type_name -> grpc.federation.generator.plugin.GRPCErrorDetail
-	35,  // 91: grpc.federation.generator.plugin.GRPCError.ignore_and_response:type_name -> grpc.federation.generator.plugin.CELValue
-	22,  // 92: grpc.federation.generator.plugin.GRPCErrorDetail.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
-	35,  // 93: grpc.federation.generator.plugin.GRPCErrorDetail.if:type_name -> grpc.federation.generator.plugin.CELValue
-	22,  // 94: grpc.federation.generator.plugin.GRPCErrorDetail.messages:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
-	51,  // 95: grpc.federation.generator.plugin.GRPCErrorDetail.precondition_failures:type_name -> grpc.federation.generator.plugin.PreconditionFailure
-	53,  // 96: grpc.federation.generator.plugin.GRPCErrorDetail.bad_requests:type_name -> grpc.federation.generator.plugin.BadRequest
-	55,  // 97: grpc.federation.generator.plugin.GRPCErrorDetail.localized_messages:type_name -> grpc.federation.generator.plugin.LocalizedMessage
-	35,  // 98: grpc.federation.generator.plugin.GRPCErrorDetail.by:type_name -> grpc.federation.generator.plugin.CELValue
-	52,  // 99: grpc.federation.generator.plugin.PreconditionFailure.violations:type_name -> grpc.federation.generator.plugin.PreconditionFailureViolation
-	35,  // 100: grpc.federation.generator.plugin.PreconditionFailureViolation.type:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 101: grpc.federation.generator.plugin.PreconditionFailureViolation.subject:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 102: grpc.federation.generator.plugin.PreconditionFailureViolation.description:type_name -> grpc.federation.generator.plugin.CELValue
-	54,  // 103: grpc.federation.generator.plugin.BadRequest.field_violations:type_name -> grpc.federation.generator.plugin.BadRequestFieldViolation
-	35,  // 104: grpc.federation.generator.plugin.BadRequestFieldViolation.field:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 105: grpc.federation.generator.plugin.BadRequestFieldViolation.description:type_name -> grpc.federation.generator.plugin.CELValue
-	35,  // 106: grpc.federation.generator.plugin.LocalizedMessage.message:type_name -> grpc.federation.generator.plugin.CELValue
-	59,  // 107: grpc.federation.generator.plugin.Enum.rule:type_name -> grpc.federation.generator.plugin.EnumRule
-	60,  // 108: grpc.federation.generator.plugin.EnumValue.rule:type_name -> grpc.federation.generator.plugin.EnumValueRule
-	61,  // 109: grpc.federation.generator.plugin.EnumValueRule.aliases:type_name -> grpc.federation.generator.plugin.EnumValueAlias
-	62,  // 110: grpc.federation.generator.plugin.EnumValueRule.attrs:type_name -> grpc.federation.generator.plugin.EnumValueAttribute
-	64,  // 111: grpc.federation.generator.plugin.CELPlugin.functions:type_name -> grpc.federation.generator.plugin.CELFunction
-	34,  // 112: grpc.federation.generator.plugin.CELFunction.args:type_name -> grpc.federation.generator.plugin.Type
-	34,  // 113: grpc.federation.generator.plugin.CELFunction.return:type_name -> grpc.federation.generator.plugin.Type
-	67,  // 114: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.annotation:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation
-	65,  // 115: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.File.generated_code_info:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo
-	3,   // 116: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation.semantic:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation.Semantic
-	7,   // 117: grpc.federation.generator.plugin.Reference.FileMapEntry.value:type_name -> grpc.federation.generator.plugin.File
-	10,  // 118: grpc.federation.generator.plugin.Reference.ServiceMapEntry.value:type_name -> grpc.federation.generator.plugin.Service
-	18,  // 119: grpc.federation.generator.plugin.Reference.MethodMapEntry.value:type_name -> grpc.federation.generator.plugin.Method
-	20,  // 120: grpc.federation.generator.plugin.Reference.MessageMapEntry.value:type_name -> grpc.federation.generator.plugin.Message
-	24,  // 121: grpc.federation.generator.plugin.Reference.FieldMapEntry.value:type_name -> grpc.federation.generator.plugin.Field
-	57,  // 122: grpc.federation.generator.plugin.Reference.EnumMapEntry.value:type_name -> grpc.federation.generator.plugin.Enum
-	58,  // 123: grpc.federation.generator.plugin.Reference.EnumValueMapEntry.value:type_name -> grpc.federation.generator.plugin.EnumValue
-	56,  // 124: grpc.federation.generator.plugin.Reference.OneofMapEntry.value:type_name -> grpc.federation.generator.plugin.Oneof
-	63,  // 125: grpc.federation.generator.plugin.Reference.CelPluginMapEntry.value:type_name -> grpc.federation.generator.plugin.CELPlugin
-	31,  // 126: grpc.federation.generator.plugin.Reference.GraphMapEntry.value:type_name -> grpc.federation.generator.plugin.MessageDependencyGraph
-	23,  // 127: grpc.federation.generator.plugin.Reference.VariableDefinitionMapEntry.value:type_name -> grpc.federation.generator.plugin.VariableDefinition
-	28,  // 128: grpc.federation.generator.plugin.Reference.VariableDefinitionGroupMapEntry.value:type_name -> grpc.federation.generator.plugin.VariableDefinitionGroup
-	129, // [129:129] is the sub-list for method output_type
-	129, // [129:129] is the sub-list for method input_type
-	129, // [129:129] is the sub-list for extension type_name
-	129, // [129:129] is the sub-list for extension extendee
-	0,   // [0:129] is the sub-list for field type_name
+	14,  // 45: grpc.federation.generator.plugin.FieldRule.env:type_name -> grpc.federation.generator.plugin.EnvVarOption
+	35,  // 46: grpc.federation.generator.plugin.FieldOneofRule.if:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 47: grpc.federation.generator.plugin.FieldOneofRule.by:type_name -> grpc.federation.generator.plugin.CELValue
+	22,  // 48: grpc.federation.generator.plugin.FieldOneofRule.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
+	29,  // 49: grpc.federation.generator.plugin.VariableDefinitionGroup.sequential:type_name -> grpc.federation.generator.plugin.SequentialVariableDefinitionGroup
+	30,  // 50: grpc.federation.generator.plugin.VariableDefinitionGroup.concurrent:type_name -> grpc.federation.generator.plugin.ConcurrentVariableDefinitionGroup
+	32,  // 51: grpc.federation.generator.plugin.MessageDependencyGraph.roots:type_name -> grpc.federation.generator.plugin.MessageDependencyGraphNode
+	32,  // 52: grpc.federation.generator.plugin.MessageDependencyGraphNode.children:type_name -> grpc.federation.generator.plugin.MessageDependencyGraphNode
+	34,  // 53: grpc.federation.generator.plugin.VariableExpr.type:type_name -> grpc.federation.generator.plugin.Type
+	35,  // 54: grpc.federation.generator.plugin.VariableExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
+	36,  // 55: grpc.federation.generator.plugin.VariableExpr.map:type_name -> grpc.federation.generator.plugin.MapExpr
+	39,  // 56: grpc.federation.generator.plugin.VariableExpr.call:type_name -> grpc.federation.generator.plugin.CallExpr
+	44,  // 57: grpc.federation.generator.plugin.VariableExpr.message:type_name -> grpc.federation.generator.plugin.MessageExpr
+	48,  // 58: grpc.federation.generator.plugin.VariableExpr.validation:type_name -> grpc.federation.generator.plugin.ValidationExpr
+	45,  // 59: grpc.federation.generator.plugin.VariableExpr.enum:type_name -> grpc.federation.generator.plugin.EnumExpr
+	1,   // 60: grpc.federation.generator.plugin.Type.kind:type_name -> grpc.federation.generator.plugin.TypeKind
+	34,  // 61: grpc.federation.generator.plugin.CELValue.out:type_name -> grpc.federation.generator.plugin.Type
+	37,  // 62: grpc.federation.generator.plugin.MapExpr.iterator:type_name -> grpc.federation.generator.plugin.Iterator
+	38,  // 63: grpc.federation.generator.plugin.MapExpr.expr:type_name -> grpc.federation.generator.plugin.MapIteratorExpr
+	34,  // 64: grpc.federation.generator.plugin.MapIteratorExpr.type:type_name -> grpc.federation.generator.plugin.Type
+	35,  // 65: grpc.federation.generator.plugin.MapIteratorExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
+	44,  // 66: grpc.federation.generator.plugin.MapIteratorExpr.message:type_name -> grpc.federation.generator.plugin.MessageExpr
+	45,  // 67: grpc.federation.generator.plugin.MapIteratorExpr.enum:type_name -> grpc.federation.generator.plugin.EnumExpr
+	43,  // 68: grpc.federation.generator.plugin.CallExpr.request:type_name -> grpc.federation.generator.plugin.Request
+	80,  // 69: grpc.federation.generator.plugin.CallExpr.timeout:type_name -> google.protobuf.Duration
+	40,  // 70: grpc.federation.generator.plugin.CallExpr.retry:type_name -> grpc.federation.generator.plugin.RetryPolicy
+	49,  // 71: grpc.federation.generator.plugin.CallExpr.errors:type_name -> grpc.federation.generator.plugin.GRPCError
+	41,  // 72: grpc.federation.generator.plugin.RetryPolicy.constant:type_name -> grpc.federation.generator.plugin.RetryPolicyConstant
+	42,  // 73: grpc.federation.generator.plugin.RetryPolicy.exponential:type_name -> grpc.federation.generator.plugin.RetryPolicyExponential
+	35,  // 74: grpc.federation.generator.plugin.RetryPolicy.if:type_name -> grpc.federation.generator.plugin.CELValue
+	80,  // 75: grpc.federation.generator.plugin.RetryPolicyConstant.interval:type_name -> google.protobuf.Duration
+	80,  // 76: grpc.federation.generator.plugin.RetryPolicyExponential.initial_interval:type_name -> google.protobuf.Duration
+	80,  // 77: grpc.federation.generator.plugin.RetryPolicyExponential.max_interval:type_name -> google.protobuf.Duration
+	80,  // 78: grpc.federation.generator.plugin.RetryPolicyExponential.max_elapsed_time:type_name -> google.protobuf.Duration
+	46,  // 79: grpc.federation.generator.plugin.Request.args:type_name -> grpc.federation.generator.plugin.Argument
+	46,  // 80: grpc.federation.generator.plugin.MessageExpr.args:type_name -> grpc.federation.generator.plugin.Argument
+	35,  // 81: grpc.federation.generator.plugin.EnumExpr.by:type_name -> grpc.federation.generator.plugin.CELValue
+	34,  // 82: grpc.federation.generator.plugin.Argument.type:type_name -> grpc.federation.generator.plugin.Type
+	47,  // 83: grpc.federation.generator.plugin.Argument.value:type_name -> grpc.federation.generator.plugin.Value
+	35,  // 84: grpc.federation.generator.plugin.Argument.if:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 85: grpc.federation.generator.plugin.Value.cel:type_name -> grpc.federation.generator.plugin.CELValue
+	49,  // 86: grpc.federation.generator.plugin.ValidationExpr.error:type_name -> grpc.federation.generator.plugin.GRPCError
+	22,  // 87: grpc.federation.generator.plugin.GRPCError.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
+	35,  // 88: grpc.federation.generator.plugin.GRPCError.if:type_name -> grpc.federation.generator.plugin.CELValue
+	81,  // 89: grpc.federation.generator.plugin.GRPCError.code:type_name -> google.rpc.Code
+	35,  // 90: grpc.federation.generator.plugin.GRPCError.message:type_name -> grpc.federation.generator.plugin.CELValue
+	50,  // 91: grpc.federation.generator.plugin.GRPCError.details:type_name -> grpc.federation.generator.plugin.GRPCErrorDetail
+	35,  // 92: grpc.federation.generator.plugin.GRPCError.ignore_and_response:type_name -> grpc.federation.generator.plugin.CELValue
+	22,  // 93: grpc.federation.generator.plugin.GRPCErrorDetail.def_set:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
+	35,  // 94: grpc.federation.generator.plugin.GRPCErrorDetail.if:type_name -> grpc.federation.generator.plugin.CELValue
+	22,  // 95: grpc.federation.generator.plugin.GRPCErrorDetail.messages:type_name -> grpc.federation.generator.plugin.VariableDefinitionSet
+	51,  // 96: grpc.federation.generator.plugin.GRPCErrorDetail.precondition_failures:type_name -> grpc.federation.generator.plugin.PreconditionFailure
+	53,  // 97: grpc.federation.generator.plugin.GRPCErrorDetail.bad_requests:type_name -> grpc.federation.generator.plugin.BadRequest
+	55,  // 98: grpc.federation.generator.plugin.GRPCErrorDetail.localized_messages:type_name -> grpc.federation.generator.plugin.LocalizedMessage
+	35,  // 99: grpc.federation.generator.plugin.GRPCErrorDetail.by:type_name -> grpc.federation.generator.plugin.CELValue
+	52,  // 100: grpc.federation.generator.plugin.PreconditionFailure.violations:type_name -> grpc.federation.generator.plugin.PreconditionFailureViolation
+	35,  // 101: grpc.federation.generator.plugin.PreconditionFailureViolation.type:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 102: grpc.federation.generator.plugin.PreconditionFailureViolation.subject:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 103: grpc.federation.generator.plugin.PreconditionFailureViolation.description:type_name -> grpc.federation.generator.plugin.CELValue
+	54,  // 104: grpc.federation.generator.plugin.BadRequest.field_violations:type_name -> grpc.federation.generator.plugin.BadRequestFieldViolation
+	35,  // 105: grpc.federation.generator.plugin.BadRequestFieldViolation.field:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 106: grpc.federation.generator.plugin.BadRequestFieldViolation.description:type_name -> grpc.federation.generator.plugin.CELValue
+	35,  // 107: grpc.federation.generator.plugin.LocalizedMessage.message:type_name -> grpc.federation.generator.plugin.CELValue
+	59,  // 108: grpc.federation.generator.plugin.Enum.rule:type_name -> grpc.federation.generator.plugin.EnumRule
+	60,  // 109: grpc.federation.generator.plugin.EnumValue.rule:type_name -> grpc.federation.generator.plugin.EnumValueRule
+	61,  // 110: grpc.federation.generator.plugin.EnumValueRule.aliases:type_name -> grpc.federation.generator.plugin.EnumValueAlias
+	62,  // 111: grpc.federation.generator.plugin.EnumValueRule.attrs:type_name -> grpc.federation.generator.plugin.EnumValueAttribute
+	64,  // 112: grpc.federation.generator.plugin.CELPlugin.functions:type_name -> grpc.federation.generator.plugin.CELFunction
+	34,  // 113: grpc.federation.generator.plugin.CELFunction.args:type_name -> grpc.federation.generator.plugin.Type
+	34,  // 114: grpc.federation.generator.plugin.CELFunction.return:type_name -> grpc.federation.generator.plugin.Type
+	67,  // 115: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.annotation:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation
+	65,  // 116: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.File.generated_code_info:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo
+	3,   // 117: grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation.semantic:type_name -> grpc.federation.generator.plugin.ProtoCodeGeneratorResponse.GeneratedCodeInfo.Annotation.Semantic
+	7,   // 118: grpc.federation.generator.plugin.Reference.FileMapEntry.value:type_name -> grpc.federation.generator.plugin.File
+	10,  // 119: grpc.federation.generator.plugin.Reference.ServiceMapEntry.value:type_name -> grpc.federation.generator.plugin.Service
+	18,  // 120: grpc.federation.generator.plugin.Reference.MethodMapEntry.value:type_name -> grpc.federation.generator.plugin.Method
+	20,  // 121: grpc.federation.generator.plugin.Reference.MessageMapEntry.value:type_name -> grpc.federation.generator.plugin.Message
+	24,  // 122: grpc.federation.generator.plugin.Reference.FieldMapEntry.value:type_name -> grpc.federation.generator.plugin.Field
+	57,  // 123: grpc.federation.generator.plugin.Reference.EnumMapEntry.value:type_name -> grpc.federation.generator.plugin.Enum
+	58,  // 124: grpc.federation.generator.plugin.Reference.EnumValueMapEntry.value:type_name -> grpc.federation.generator.plugin.EnumValue
+	56,  // 125: grpc.federation.generator.plugin.Reference.OneofMapEntry.value:type_name -> grpc.federation.generator.plugin.Oneof
+	63,  // 126: grpc.federation.generator.plugin.Reference.CelPluginMapEntry.value:type_name -> grpc.federation.generator.plugin.CELPlugin
+	31,  // 127: grpc.federation.generator.plugin.Reference.GraphMapEntry.value:type_name -> grpc.federation.generator.plugin.MessageDependencyGraph
+	23,  // 128: grpc.federation.generator.plugin.Reference.VariableDefinitionMapEntry.value:type_name -> grpc.federation.generator.plugin.VariableDefinition
+	28,  // 129: grpc.federation.generator.plugin.Reference.VariableDefinitionGroupMapEntry.value:type_name -> grpc.federation.generator.plugin.VariableDefinitionGroup
+	130, // [130:130] is the sub-list for method output_type
+	130, // [130:130] is the sub-list for method input_type
+	130, // [130:130] is the sub-list for extension type_name
+	130, // [130:130] is the sub-list for extension extendee
+	0,   // [0:130] is the sub-list for field type_name
 }
 
 func init() { file_grpc_federation_generator_proto_init() }
@@ -6188,7 +6223,7 @@ func file_grpc_federation_generator_proto_init() {
 		return
 	}
 	if !protoimpl.UnsafeEnabled {
-		file_grpc_federation_generator_proto_msgTypes[0].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[0].Exporter = func(v any, i int) any {
 			switch v := v.(*ProtoCodeGeneratorResponse); i {
 			case 0:
 				return &v.state
@@ -6200,7 +6235,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[1].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[1].Exporter = func(v any, i int) any {
 			switch v := v.(*CodeGeneratorRequest); i {
 			case 0:
 				return &v.state
@@ -6212,7 +6247,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[2].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[2].Exporter = func(v any, i int) any {
 			switch v := v.(*Reference); i {
 			case 0:
 				return &v.state
@@ -6224,7 +6259,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[3].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[3].Exporter = func(v any, i int) any {
 			switch v := v.(*File); i {
 			case 0:
 				return &v.state
@@ -6236,7 +6271,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[4].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[4].Exporter = func(v any, i int) any {
 			switch v := v.(*Package); i {
 			case 0:
 				return &v.state
@@ -6248,7 +6283,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[5].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[5].Exporter = func(v any, i int) any {
 			switch v := v.(*GoPackage); i {
 			case 0:
 				return &v.state
@@ -6260,7 +6295,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[6].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[6].Exporter = func(v any, i int) any {
 			switch v := v.(*Service); i {
 			case 0:
 				return &v.state
@@ -6272,7 +6307,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[7].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[7].Exporter = func(v any, i int) any {
 			switch v := v.(*ServiceRule); i {
 			case 0:
 				return &v.state
@@ -6284,7 +6319,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[8].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[8].Exporter = func(v any, i int) any {
 			switch v := v.(*Env); i {
 			case 0:
 				return &v.state
@@ -6296,7 +6331,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[9].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[9].Exporter = func(v any, i int) any {
 			switch v := v.(*EnvVar); i {
 			case 0:
 				return &v.state
@@ -6308,7 +6343,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[10].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[10].Exporter = func(v any, i int) any {
 			switch v := v.(*EnvVarOption); i {
 			case 0:
 				return &v.state
@@ -6320,7 +6355,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[11].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[11].Exporter = func(v any, i int) any {
 			switch v := v.(*ServiceVariable); i {
 			case 0:
 				return &v.state
@@ -6332,7 +6367,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[12].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[12].Exporter = func(v any, i int) any {
 			switch v := v.(*ServiceVariableExpr); i {
 			case 0:
 				return &v.state
@@ -6344,7 +6379,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[13].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[13].Exporter = func(v any, i int) any {
 			switch v := v.(*ServiceVariableValidationExpr); i {
 			case 0:
 				return &v.state
@@ -6356,7 +6391,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[14].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[14].Exporter = func(v any, i int) any {
 			switch v := v.(*Method); i {
 			case 0:
 				return &v.state
@@ -6368,7 +6403,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[15].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[15].Exporter = func(v any, i int) any {
 			switch v := v.(*MethodRule); i {
 			case 0:
 				return &v.state
@@ -6380,7 +6415,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[16].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[16].Exporter = func(v any, i int) any {
 			switch v := v.(*Message); i {
 			case 0:
 				return &v.state
@@ -6392,7 +6427,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[17].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[17].Exporter = func(v any, i int) any {
 			switch v := v.(*MessageRule); i {
 			case 0:
 				return &v.state
@@ -6404,7 +6439,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[18].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[18].Exporter = func(v any, i int) any {
 			switch v := v.(*VariableDefinitionSet); i {
 			case 0:
 				return &v.state
@@ -6416,7 +6451,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[19].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[19].Exporter = func(v any, i int) any {
 			switch v := v.(*VariableDefinition); i {
 			case 0:
 				return &v.state
@@ -6428,7 +6463,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[20].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[20].Exporter = func(v any, i int) any {
 			switch v := v.(*Field); i {
 			case 0:
 				return &v.state
@@ -6440,7 +6475,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[21].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[21].Exporter = func(v any, i int) any {
 			switch v := v.(*FieldRule); i {
 			case 0:
 				return &v.state
@@ -6452,7 +6487,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[22].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[22].Exporter = func(v any, i int) any {
 			switch v := v.(*AutoBindField); i {
 			case 0:
 				return &v.state
@@ -6464,7 +6499,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[23].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[23].Exporter = func(v any, i int) any {
 			switch v := v.(*FieldOneofRule); i {
 			case 0:
 				return &v.state
@@ -6476,7 +6511,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[24].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[24].Exporter = func(v any, i int) any {
 			switch v := v.(*VariableDefinitionGroup); i {
 			case 0:
 				return &v.state
@@ -6488,7 +6523,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[25].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[25].Exporter = func(v any, i int) any {
 			switch v := v.(*SequentialVariableDefinitionGroup); i {
 			case 0:
 				return &v.state
@@ -6500,7 +6535,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[26].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[26].Exporter = func(v any, i int) any {
 			switch v := v.(*ConcurrentVariableDefinitionGroup); i {
 			case 0:
 				return &v.state
@@ -6512,7 +6547,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[27].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[27].Exporter = func(v any, i int) any {
 			switch v := v.(*MessageDependencyGraph); i {
 			case 0:
 				return &v.state
@@ -6524,7 +6559,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[28].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[28].Exporter = func(v any, i int) any {
 			switch v := v.(*MessageDependencyGraphNode); i {
 			case 0:
 				return &v.state
@@ -6536,7 +6571,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[29].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[29].Exporter = func(v any, i int) any {
 			switch v := v.(*VariableExpr); i {
 			case 0:
 				return &v.state
@@ -6548,7 +6583,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[30].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[30].Exporter = func(v any, i int) any {
 			switch v := v.(*Type); i {
 			case 0:
 				return &v.state
@@ -6560,7 +6595,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[31].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[31].Exporter = func(v any, i int) any {
 			switch v := v.(*CELValue); i {
 			case 0:
 				return &v.state
@@ -6572,7 +6607,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[32].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[32].Exporter = func(v any, i int) any {
 			switch v := v.(*MapExpr); i {
 			case 0:
 				return &v.state
@@ -6584,7 +6619,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[33].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[33].Exporter = func(v any, i int) any {
 			switch v := v.(*Iterator); i {
 			case 0:
 				return &v.state
@@ -6596,7 +6631,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[34].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[34].Exporter = func(v any, i int) any {
 			switch v := v.(*MapIteratorExpr); i {
 			case 0:
 				return &v.state
@@ -6608,7 +6643,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[35].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[35].Exporter = func(v any, i int) any {
 			switch v := v.(*CallExpr); i {
 			case 0:
 				return &v.state
@@ -6620,7 +6655,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[36].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[36].Exporter = func(v any, i int) any {
 			switch v := v.(*RetryPolicy); i {
 			case 0:
 				return &v.state
@@ -6632,7 +6667,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[37].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[37].Exporter = func(v any, i int) any {
 			switch v := v.(*RetryPolicyConstant); i {
 			case 0:
 				return &v.state
@@ -6644,7 +6679,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[38].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[38].Exporter = func(v any, i int) any {
 			switch v := v.(*RetryPolicyExponential); i {
 			case 0:
 				return &v.state
@@ -6656,7 +6691,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[39].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[39].Exporter = func(v any, i int) any {
 			switch v := v.(*Request); i {
 			case 0:
 				return &v.state
@@ -6668,7 +6703,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[40].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[40].Exporter = func(v any, i int) any {
 			switch v := v.(*MessageExpr); i {
 			case 0:
 				return &v.state
@@ -6680,7 +6715,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[41].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[41].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumExpr); i {
 			case 0:
 				return &v.state
@@ -6692,7 +6727,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[42].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[42].Exporter = func(v any, i int) any {
 			switch v := v.(*Argument); i {
 			case 0:
 				return &v.state
@@ -6704,7 +6739,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[43].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[43].Exporter = func(v any, i int) any {
 			switch v := v.(*Value); i {
 			case 0:
 				return &v.state
@@ -6716,7 +6751,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[44].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[44].Exporter = func(v any, i int) any {
 			switch v := v.(*ValidationExpr); i {
 			case 0:
 				return &v.state
@@ -6728,7 +6763,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[45].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[45].Exporter = func(v any, i int) any {
 			switch v := v.(*GRPCError); i {
 			case 0:
 				return &v.state
@@ -6740,7 +6775,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[46].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[46].Exporter = func(v any, i int) any {
 			switch v := v.(*GRPCErrorDetail); i {
 			case 0:
 				return &v.state
@@ -6752,7 +6787,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[47].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[47].Exporter = func(v any, i int) any {
 			switch v := v.(*PreconditionFailure); i {
 			case 0:
 				return &v.state
@@ -6764,7 +6799,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[48].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[48].Exporter = func(v any, i int) any {
 			switch v := v.(*PreconditionFailureViolation); i {
 			case 0:
 				return &v.state
@@ -6776,7 +6811,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[49].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[49].Exporter = func(v any, i int) any {
 			switch v := v.(*BadRequest); i {
 			case 0:
 				return &v.state
@@ -6788,7 +6823,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[50].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[50].Exporter = func(v any, i int) any {
 			switch v := v.(*BadRequestFieldViolation); i {
 			case 0:
 				return &v.state
@@ -6800,7 +6835,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[51].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[51].Exporter = func(v any, i int) any {
 			switch v := v.(*LocalizedMessage); i {
 			case 0:
 				return &v.state
@@ -6812,7 +6847,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[52].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[52].Exporter = func(v any, i int) any {
 			switch v := v.(*Oneof); i {
 			case 0:
 				return &v.state
@@ -6824,7 +6859,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[53].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[53].Exporter = func(v any, i int) any {
 			switch v := v.(*Enum); i {
 			case 0:
 				return &v.state
@@ -6836,7 +6871,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[54].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[54].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumValue); i {
 			case 0:
 				return &v.state
@@ -6848,7 +6883,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[55].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[55].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumRule); i {
 			case 0:
 				return &v.state
@@ -6860,7 +6895,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[56].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[56].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumValueRule); i {
 			case 0:
 				return &v.state
@@ -6872,7 +6907,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[57].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[57].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumValueAlias); i {
 			case 0:
 				return &v.state
@@ -6884,7 +6919,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[58].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[58].Exporter = func(v any, i int) any {
 			switch v := v.(*EnumValueAttribute); i {
 			case 0:
 				return &v.state
@@ -6896,7 +6931,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[59].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[59].Exporter = func(v any, i int) any {
 			switch v := v.(*CELPlugin); i {
 			case 0:
 				return &v.state
@@ -6908,7 +6943,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[60].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[60].Exporter = func(v any, i int) any {
 			switch v := v.(*CELFunction); i {
 			case 0:
 				return &v.state
@@ -6920,7 +6955,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[61].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[61].Exporter = func(v any, i int) any {
 			switch v := v.(*ProtoCodeGeneratorResponse_GeneratedCodeInfo); i {
 			case 0:
 				return &v.state
@@ -6932,7 +6967,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[62].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[62].Exporter = func(v any, i int) any {
 			switch v := v.(*ProtoCodeGeneratorResponse_File); i {
 			case 0:
 				return &v.state
@@ -6944,7 +6979,7 @@ func file_grpc_federation_generator_proto_init() {
 				return nil
 			}
 		}
-		file_grpc_federation_generator_proto_msgTypes[63].Exporter = func(v interface{}, i int) interface{} {
+		file_grpc_federation_generator_proto_msgTypes[63].Exporter = func(v any, i int) any {
 			switch v := v.(*ProtoCodeGeneratorResponse_GeneratedCodeInfo_Annotation); i {
 			case 0:
 				return &v.state
@@ -6957,19 +6992,19 @@ func file_grpc_federation_generator_proto_init() {
 			}
 		}
 	}
-	file_grpc_federation_generator_proto_msgTypes[0].OneofWrappers = []interface{}{}
-	file_grpc_federation_generator_proto_msgTypes[12].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[0].OneofWrappers = []any{}
+	file_grpc_federation_generator_proto_msgTypes[12].OneofWrappers = []any{
 		(*ServiceVariableExpr_By)(nil),
 		(*ServiceVariableExpr_Map)(nil),
 		(*ServiceVariableExpr_Message)(nil),
 		(*ServiceVariableExpr_Validation)(nil),
 		(*ServiceVariableExpr_Enum)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[24].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[24].OneofWrappers = []any{
 		(*VariableDefinitionGroup_Sequential)(nil),
 		(*VariableDefinitionGroup_Concurrent)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[29].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[29].OneofWrappers = []any{
 		(*VariableExpr_By)(nil),
 		(*VariableExpr_Map)(nil),
 		(*VariableExpr_Call)(nil),
@@ -6977,23 +7012,23 @@ func file_grpc_federation_generator_proto_init() {
 		(*VariableExpr_Validation)(nil),
 		(*VariableExpr_Enum)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[30].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[30].OneofWrappers = []any{
 		(*Type_MessageId)(nil),
 		(*Type_EnumId)(nil),
 		(*Type_OneofFieldId)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[34].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[34].OneofWrappers = []any{
 		(*MapIteratorExpr_By)(nil),
 		(*MapIteratorExpr_Message)(nil),
 		(*MapIteratorExpr_Enum)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[36].OneofWrappers = []interface{}{
+	file_grpc_federation_generator_proto_msgTypes[36].OneofWrappers = []any{
 		(*RetryPolicy_Constant)(nil),
 		(*RetryPolicy_Exponential)(nil),
 	}
-	file_grpc_federation_generator_proto_msgTypes[45].OneofWrappers = []interface{}{}
-	file_grpc_federation_generator_proto_msgTypes[62].OneofWrappers = []interface{}{}
-	file_grpc_federation_generator_proto_msgTypes[63].OneofWrappers = []interface{}{}
+	file_grpc_federation_generator_proto_msgTypes[45].OneofWrappers = []any{}
+	file_grpc_federation_generator_proto_msgTypes[62].OneofWrappers = []any{}
+	file_grpc_federation_generator_proto_msgTypes[63].OneofWrappers = []any{}
 	type x struct{}
 	out := protoimpl.TypeBuilder{
 		File: protoimpl.DescBuilder{
diff --git a/proto/grpc/federation/generator.proto b/proto/grpc/federation/generator.proto
index 3fe65e6..c9146a3 100644
--- a/proto/grpc/federation/generator.proto
+++ b/proto/grpc/federation/generator.proto
@@ -219,6 +219,7 @@ message FieldRule {
   repeated string alias_ids = 4;
   AutoBindField auto_bind_field = 5;
   FieldOneofRule oneof_rule = 6;
+  EnvVarOption env = 7;
 }
 
 message AutoBindField {
@@ -305,6 +306,8 @@ message Type {
     string enum_id = 5;
     string oneof_field_id = 6;
   }
+  // source_oneof_field_id is the field of the oneof which has the type if ref is message_id or enum_id.
+  string source_oneof_field_id = 7;
 }
 
 message CELValue {
@@ -401,6 +404,7 @@ message GRPCError {
   repeated GRPCErrorDetail details = 5;
   bool ignore = 6;
   CELValue ignore_and_response = 7;
+  int64 log_level = 8;
 }
 
 message GRPCErrorDetail {
-- 
2.43.0


From c69a0f343d6c3130c61cd6fc7e95108773ca2b3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:28 +0000
Subject: [PATCH 29/67] fix: accept repeated numbers for repeated enum request
 fields again

---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index a36e6a1..1cd8c0c 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1644,7 +1644,7 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 			return
 		}
 	}
-	if toType.Kind == types.Enum && !fromType.Repeated && (fromType.IsNumber() || fromType.IsEnumSelector()) {
+	if toType.Kind == types.Enum && (fromType.IsNumber() || !fromType.Repeated && fromType.IsEnumSelector()) {
 		// The value of enum in CEL is a number.
 		return
 	}
-- 
2.43.0


From 629baf175600e097ef269ef4d8b24942d00b326e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 30/67] fix: reject enum conversions that have no unique
 result, which the generated code cannot express

---
 resolver/resolver.go | 52 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 1cd8c0c..1ff1450 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -763,6 +763,58 @@ func (r *Resolver) validateService(ctx *context, svc *Service) {
 		return
 	}
 	r.validateMethodResponse(ctx, svc)
+	if ctx.error() != nil {
+		return
+	}
+	r.validateEnumConversion(ctx, svc)
+}
+
+// validateEnumConversion validates that the destination value is uniquely determined for all conversions to the enum of the dependent service.
+func (r *Resolver) validateEnumConversion(ctx *context, service *Service) {
+	for _, msg := range service.Messages {
+		for _, decl := range msg.TypeConversionDecls() {
+			if decl.From.Enum == nil || decl.To.Enum == nil || decl.From.Repeated {
+				continue
+			}
+			if err := validateEnumConversionToAlias(decl.From.Enum, decl.To.Enum); err != nil {
+				ctx.withFile(msg.File).addError(
+					ErrWithLocation(
+						err.Error(),
+						newMessageBuilderFromMessage(msg).Location(),
+					),
+				)
+			}
+		}
+	}
+}
+
+func validateEnumConversionToAlias(from, to *Enum) error {
+	if to.Rule != nil && len(to.Rule.Aliases) != 0 {
+		return nil
+	}
+	if from.Rule == nil || len(from.Rule.Aliases) == 0 {
+		return nil
+	}
+	for _, value := range from.Values {
+		if value.Rule == nil {
+			continue
+		}
+		if value.Rule.Default {
+			return fmt.Errorf(
+				`%q value specifies "default". the value of %q to convert it to cannot be uniquely determined`,
+				value.FQDN(), to.FQDN(),
+			)
+		}
+		for _, alias := range value.Rule.Aliases {
+			if alias.EnumAlias == to && len(alias.Aliases) != 1 {
+				return fmt.Errorf(
+					`%q value specifies multiple "alias". the value of %q to convert it to cannot be uniquely determined`,
+					value.FQDN(), to.FQDN(),
+				)
+			}
+		}
+	}
+	return nil
 }
 
 func (r *Resolver) validateMethodResponse(ctx *context, service *Service) {
-- 
2.43.0


From 88c6718457d5b8cb215fd1b6327d54c33bd2f41f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:38 +0000
Subject: [PATCH 31/67] fix: convert fields declared with "alias" from the
 field they name

---
 resolver/type_conversion.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 007adc5..09526f8 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -70,7 +70,7 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		}
 		decls = append(decls, &TypeConversionDecl{From: fromType, To: toType})
 		for _, field := range toType.Message.Fields {
-			fromField := fromType.Message.Field(field.Name)
+			fromField := aliasSourceField(field, fromType.Message)
 			if fromField == nil {
 				continue
 			}
@@ -82,6 +82,18 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	return decls
 }
 
+// aliasSourceField returns the field of the msg to be assigned to the toField.
+func aliasSourceField(toField *Field, msg *Message) *Field {
+	if toField.Rule != nil {
+		for _, alias := range toField.Rule.Aliases {
+			if alias.Message == msg {
+				return alias
+			}
+		}
+	}
+	return msg.Field(toField.Name)
+}
+
 func enumSelectorTypeConversionDecls(msg *Message, toType *Type, convertedFQDNMap map[string]struct{}) []*TypeConversionDecl {
 	var decls []*TypeConversionDecl
 	if msg.IsEnumSelector() {
-- 
2.43.0


From 01c7d345c3b3e77873f14b62ab828127696eaf98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:43 +0000
Subject: [PATCH 32/67] fix: resolve the arguments of messages which are the
 response of several methods or a dependency as well

---
 resolver/graph.go    |  20 +++++----
 resolver/message.go  |  16 ++++---
 resolver/resolver.go | 102 ++++++++++++++++++++++++++++++++++++++-----
 resolver/service.go  |  12 ++++-
 resolver/types.go    |   2 +
 5 files changed, 127 insertions(+), 25 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 7ae4477..50f8f01 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -25,19 +25,23 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 
 		newAllMessageDependencyGraphNodeReferenceBuilder(msgToNode, msg).Build(ctx)
 	}
-	var roots []*AllMessageDependencyGraphNode
+	nodes := make([]*AllMessageDependencyGraphNode, 0, len(msgToNode))
 	for _, node := range msgToNode {
+		nodes = append(nodes, node)
+	}
+	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].Message.Name != nodes[j].Message.Name {
+			return nodes[i].Message.Name < nodes[j].Message.Name
+		}
+		return nodes[i].Message.FQDN() < nodes[j].Message.FQDN()
+	})
+	var roots []*AllMessageDependencyGraphNode
+	for _, node := range nodes {
 		if len(node.Parent) == 0 {
 			roots = append(roots, node)
 		}
 	}
-	sort.Slice(roots, func(i, j int) bool {
-		if roots[i].Message.Name != roots[j].Message.Name {
-			return roots[i].Message.Name < roots[j].Message.Name
-		}
-		return roots[i].Message.FQDN() < roots[j].Message.FQDN()
-	})
-	graph := &AllMessageDependencyGraph{Roots: roots}
+	graph := &AllMessageDependencyGraph{Roots: roots, Nodes: nodes}
 	if err := validateAllMessageGraph(graph); err != nil {
 		ctx.addError(err)
 		return nil
diff --git a/resolver/message.go b/resolver/message.go
index 46cd0e6..6f176aa 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -517,6 +517,17 @@ func (m *Message) CustomResolvers() []*CustomResolver {
 		return nil
 	}
 
+	ret := m.ownCustomResolvers()
+	for _, group := range m.Rule.DefSet.DefinitionGroups() {
+		for _, def := range group.VariableDefinitions() {
+			ret = append(ret, m.customResolvers(def)...)
+		}
+	}
+	return ret
+}
+
+// ownCustomResolvers returns custom resolvers of the message and its fields.
+func (m *Message) ownCustomResolvers() []*CustomResolver {
 	var ret []*CustomResolver
 	if m.HasCustomResolver() {
 		ret = append(ret, &CustomResolver{Message: m})
@@ -529,11 +540,6 @@ func (m *Message) CustomResolvers() []*CustomResolver {
 			})
 		}
 	}
-	for _, group := range m.Rule.DefSet.DefinitionGroups() {
-		for _, def := range group.VariableDefinitions() {
-			ret = append(ret, m.customResolvers(def)...)
-		}
-	}
 	return ret
 }
 
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 1ff1450..9b6ab79 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3667,8 +3667,8 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	// Need to prepare the svcMsgSet first to build env messages.
 	// This is necessary because we need to know which messages are used by which services when creating the messages.
 	svcMsgSet := make(map[*Service]map[*Message]struct{})
-	for _, root := range graph.Roots {
-		// The root message is always the response message of the method.
+	for _, root := range graph.Nodes {
+		// The response message of the method may also be the dependency of other messages.
 		rootMsg := root.Message
 		// Store the messages to serviceMsgMap first to avoid inserting duplicated ones to Service.Messages
 		for _, svc := range r.cachedServiceMap {
@@ -3684,6 +3684,22 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 		}
 	}
 
+	for _, node := range graph.Nodes {
+		if len(node.Parent) == 0 {
+			continue
+		}
+		// If the message which is the dependency of other messages is also the response message of the method,
+		// the message argument has the fields of the request message.
+		fields := r.requestFieldsFromResponseMessage(ctx, node.Message)
+		if len(fields) == 0 || node.Message.Rule.MessageArgument != nil {
+			continue
+		}
+		msgArg := newMessageArgument(node.Message)
+		msgArg.Fields = fields
+		node.Message.Rule.MessageArgument = msgArg
+		r.cachedMessageMap[msgArg.FQDN()] = msgArg
+	}
+
 	for _, root := range graph.Roots {
 		rootMsg := root.Message
 
@@ -3697,8 +3713,7 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 
 		// The message argument of the response message is the request message.
 		// Therefore, the request message is retrieved from the response message.
-		reqMsg := r.lookupRequestMessageFromResponseMessage(rootMsg)
-		if reqMsg == nil {
+		if r.lookupRequestMessageFromResponseMessage(rootMsg) == nil {
 			// A non-response message may also become a root message.
 			// In such a case, the message argument field does not exist.
 			// However, since it is necessary to resolve the CEL reference, needs to call recursive message argument resolver.
@@ -3707,7 +3722,7 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 			continue
 		}
 
-		msgArg.Fields = append(msgArg.Fields, reqMsg.Fields...)
+		msgArg.Fields = append(msgArg.Fields, r.requestFieldsFromResponseMessage(ctx, rootMsg)...)
 		r.cachedMessageMap[msgArg.FQDN()] = msgArg
 		r.resolveMessageArgumentRecursive(ctx, root, svcMsgSet)
 	}
@@ -3792,7 +3807,7 @@ func (r *Resolver) resolveMessageArgumentRecursive(
 			r.cachedMessageMap[depMsgArg.FQDN()] = depMsgArg
 		}
 		defs := msgToDefsMap[depMsg]
-		depMsgArg.Fields = append(depMsgArg.Fields, r.resolveMessageArgumentFields(ctx, depMsgArg, defs)...)
+		depMsgArg.Fields = append(depMsgArg.Fields, r.resolveMessageArgumentFields(ctx, depMsg, depMsgArg, defs)...)
 		for _, field := range depMsgArg.Fields {
 			field.Message = depMsgArg
 		}
@@ -3802,7 +3817,7 @@ func (r *Resolver) resolveMessageArgumentRecursive(
 	return msgs
 }
 
-func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs []*VariableDefinition) []*Field {
+func (r *Resolver) resolveMessageArgumentFields(ctx *context, msg, arg *Message, defs []*VariableDefinition) []*Field {
 	argNameMap := make(map[string]struct{})
 	for _, varDef := range defs {
 		for _, msgExpr := range varDef.MessageExprs() {
@@ -3817,8 +3832,18 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 
 	evaluatedArgNameMap := make(map[string]*Type)
 	// First, evaluate the fields that are already registered in the message argument.
+	requestFields := make(map[string]struct{})
+	for _, method := range r.methodsFromResponseMessage(msg) {
+		for _, field := range method.Request.Fields {
+			requestFields[field.Name] = struct{}{}
+		}
+	}
 	for _, field := range arg.Fields {
 		evaluatedArgNameMap[field.Name] = field.Type
+		if _, exists := requestFields[field.Name]; exists {
+			// The arguments which are the fields of the request message don't have to be specified by other messages.
+			continue
+		}
 		argNameMap[field.Name] = struct{}{}
 	}
 	var fields []*Field
@@ -3880,7 +3905,8 @@ func (r *Resolver) resolveMessageArgumentFields(ctx *context, arg *Message, defs
 							}
 							continue
 						}
-						fields = append(fields, field)
+						cloned := *field
+						fields = append(fields, &cloned)
 						evaluatedArgNameMap[field.Name] = field.Type
 					}
 				} else {
@@ -5306,14 +5332,68 @@ func (r *Resolver) resolveValue(def *commonValueDef) (*Value, error) {
 }
 
 func (r *Resolver) lookupRequestMessageFromResponseMessage(resMsg *Message) *Message {
-	// If there are several methods, always use the same one.
+	for _, method := range r.methodsFromResponseMessage(resMsg) {
+		return method.Request
+	}
+	return nil
+}
+
+// methodsFromResponseMessage returns all methods whose response is the specified message, sorted by the name.
+func (r *Resolver) methodsFromResponseMessage(resMsg *Message) []*Method {
+	var methods []*Method
 	for _, fqdn := range slices.Sorted(maps.Keys(r.cachedMethodMap)) {
 		method := r.cachedMethodMap[fqdn]
 		if method.FederationResponse() == resMsg {
-			return method.Request
+			methods = append(methods, method)
 		}
 	}
-	return nil
+	return methods
+}
+
+// requestFieldsFromResponseMessage returns the fields of the request messages of all methods whose response is the specified message.
+func (r *Resolver) requestFieldsFromResponseMessage(ctx *context, resMsg *Message) []*Field {
+	var fields []*Field
+	fieldMap := make(map[string]*Field)
+	for _, method := range r.methodsFromResponseMessage(resMsg) {
+		for _, field := range method.Request.Fields {
+			if found, exists := fieldMap[field.Name]; exists {
+				if r.isDifferentRequestFieldType(found.Type, field.Type) {
+					ctx.addError(
+						ErrWithLocation(
+							fmt.Sprintf(
+								"%q field of %q message is declared with a different type from %q. the methods whose response is the %q message need to have the same type of the request field",
+								field.Name, method.Request.FQDN(), found.FQDN(), resMsg.FQDN(),
+							),
+							newMessageBuilderFromMessage(resMsg).Location(),
+						),
+					)
+				}
+				continue
+			}
+			cloned := *field
+			fieldMap[field.Name] = field
+			fields = append(fields, &cloned)
+		}
+	}
+	return fields
+}
+
+func (r *Resolver) isDifferentRequestFieldType(a, b *Type) bool {
+	if a == nil || b == nil {
+		return false
+	}
+	if a.Kind != b.Kind || a.Repeated != b.Repeated {
+		return true
+	}
+	if a.isMap() && b.isMap() {
+		for _, name := range []string{"key", "value"} {
+			if r.isDifferentRequestFieldType(a.Message.Field(name).Type, b.Message.Field(name).Type) {
+				return true
+			}
+		}
+		return false
+	}
+	return a.Message != b.Message || a.Enum != b.Enum
 }
 
 func (r *Resolver) splitMethodFullName(pkg *Package, name string) (string, string, string, error) {
diff --git a/resolver/service.go b/resolver/service.go
index e9f7e62..98eef9f 100644
--- a/resolver/service.go
+++ b/resolver/service.go
@@ -121,6 +121,11 @@ func (s *Service) CustomResolvers() []*CustomResolver {
 			resolverMap[resolver.FQDN()] = resolver
 		}
 	}
+	for _, msg := range s.Messages {
+		for _, resolver := range msg.ownCustomResolvers() {
+			resolverMap[resolver.FQDN()] = resolver
+		}
+	}
 	resolvers := make([]*CustomResolver, 0, len(resolverMap))
 	for _, resolver := range resolverMap {
 		resolvers = append(resolvers, resolver)
@@ -162,7 +167,12 @@ func (s *Service) UseServices() []*Service {
 	}
 	svcMap := map[*Service]struct{}{}
 	for _, method := range s.Methods {
-		for _, svc := range method.Response.DependServices() {
+		for _, svc := range method.FederationResponse().DependServices() {
+			svcMap[svc] = struct{}{}
+		}
+	}
+	for _, msg := range s.Messages {
+		for _, svc := range msg.DependServices() {
 			svcMap[svc] = struct{}{}
 		}
 	}
diff --git a/resolver/types.go b/resolver/types.go
index e5bd4f4..eefadea 100644
--- a/resolver/types.go
+++ b/resolver/types.go
@@ -387,6 +387,8 @@ type FieldOneofRule struct {
 
 type AllMessageDependencyGraph struct {
 	Roots []*AllMessageDependencyGraphNode
+	// Nodes all nodes sorted by the name of the message.
+	Nodes []*AllMessageDependencyGraphNode
 }
 
 type AllMessageDependencyGraphNode struct {
-- 
2.43.0


From 4f6d2a5a247c0e2c0f14697051fb47e6c40aab01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 33/67] fix: return enum values of plugin functions as the
 integers that CEL takes them for

---
 generator/code_generator.go   |  8 ++++++--
 grpc/federation/cel_plugin.go | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 9a82468..eb1d6a1 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -253,8 +253,10 @@ func (r *CELFunctionReturn) Converter() string {
 			return "ToFloat64ListCELPluginResponse"
 		case types.Float:
 			return "ToFloat32ListCELPluginResponse"
-		case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+		case types.Int32, types.Sint32, types.Sfixed32:
 			return "ToInt32ListCELPluginResponse"
+		case types.Enum:
+			return "ToEnumListCELPluginResponse"
 		case types.Int64, types.Sint64, types.Sfixed64:
 			return "ToInt64ListCELPluginResponse"
 		case types.Uint32, types.Fixed32:
@@ -279,8 +281,10 @@ func (r *CELFunctionReturn) Converter() string {
 		return "ToFloat64CELPluginResponse"
 	case types.Float:
 		return "ToFloat32CELPluginResponse"
-	case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+	case types.Int32, types.Sint32, types.Sfixed32:
 		return "ToInt32CELPluginResponse"
+	case types.Enum:
+		return "ToEnumCELPluginResponse"
 	case types.Int64, types.Sint64, types.Sfixed64:
 		return "ToInt64CELPluginResponse"
 	case types.Uint32, types.Fixed32:
diff --git a/grpc/federation/cel_plugin.go b/grpc/federation/cel_plugin.go
index 2932231..176bbbd 100644
--- a/grpc/federation/cel_plugin.go
+++ b/grpc/federation/cel_plugin.go
@@ -252,6 +252,18 @@ func ToInt32ListCELPluginResponse(v []int32) (*celplugin.CELPluginResponse, erro
 	return ToInt64ListCELPluginResponse(i64)
 }
 
+func ToEnumCELPluginResponse[T ~int32](v T) (*celplugin.CELPluginResponse, error) {
+	return ToInt64CELPluginResponse(int64(v))
+}
+
+func ToEnumListCELPluginResponse[T ~int32](v []T) (*celplugin.CELPluginResponse, error) {
+	i64 := make([]int64, 0, len(v))
+	for _, vv := range v {
+		i64 = append(i64, int64(vv))
+	}
+	return ToInt64ListCELPluginResponse(i64)
+}
+
 func ToInt64CELPluginResponse(v int64) (*celplugin.CELPluginResponse, error) {
 	return &celplugin.CELPluginResponse{Value: toInt64CELPluginValue(v)}, nil
 }
-- 
2.43.0


From 11c32e5dec6452976c164ae2385761080704fc03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:52 +0000
Subject: [PATCH 34/67] fix: write texts of the schema into the generated code
 so that they cannot end the literal or comment

---
 generator/code_generator.go               |  2 ++
 generator/funcs.go                        | 17 ++++++++++++
 generator/templates/error_handler.go.tmpl | 24 ++++++++--------
 generator/templates/eval.go.tmpl          | 34 +++++++++++------------
 generator/templates/server.go.tmpl        | 14 +++++-----
 generator/templates/validation.go.tmpl    |  8 +++---
 6 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb1d6a1..b71ded6 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3620,6 +3620,8 @@ func loadTemplate() (*template.Template, error) {
 			"map":             CreateMap,
 			"parentCtx":       ParentCtx,
 			"toLocalVariable": LocalVariable,
+			"goString":        GoString,
+			"commentText":     CommentText,
 		},
 	).ParseFS(tmpls, "templates/*.tmpl")
 	if err != nil {
diff --git a/generator/funcs.go b/generator/funcs.go
index 8397254..eddd641 100644
--- a/generator/funcs.go
+++ b/generator/funcs.go
@@ -3,6 +3,9 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/mercari/grpc-federation/util"
 )
@@ -47,3 +50,17 @@ func Add(n1, n2 int) int {
 func LocalVariable(v string) string {
 	return util.ToPrivateGoVariable(v) + "Value"
 }
+
+// GoString creates the Go string literal for the given text.
+// A raw string literal is used unless the text cannot be represented by it.
+func GoString(v string) string {
+	if strings.ContainsAny(v, "`\r\ufeff\x00") || !utf8.ValidString(v) {
+		return strconv.Quote(v)
+	}
+	return "`" + v + "`"
+}
+
+// CommentText creates the text which can be written in the general comment ( /* */ ) of Go.
+func CommentText(v string) string {
+	return strings.ReplaceAll(v, "*/", "*\\/")
+}
diff --git a/generator/templates/error_handler.go.tmpl b/generator/templates/error_handler.go.tmpl
index 615c0d2..4707201 100644
--- a/generator/templates/error_handler.go.tmpl
+++ b/generator/templates/error_handler.go.tmpl
@@ -47,7 +47,7 @@ stat, handleErr := func() (*localStatusType, error) {
 	{{- end }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
-		Expr: `{{ .If.Expr }}`,
+		Expr: {{ .If.Expr | goString }},
 		CacheIndex: {{ $def.CELCacheIndex }},
 		Body: func(value *localValueType) error {
 			{{- if .Ignore }}
@@ -62,7 +62,7 @@ stat, handleErr := func() (*localStatusType, error) {
 					ret = v // assign customized response to the result value.
 					return nil
 				},
-				By: `{{ .IgnoreAndResponse.Expr }}`,
+				By: {{ .IgnoreAndResponse.Expr | goString }},
 				ByCacheIndex: {{ $def.CELCacheIndex }},
 			}); err != nil {
 				grpcfed.Logger(ctx).ErrorContext(ctx, "failed to set response when ignored", slog.String("error", err.Error()))
@@ -74,7 +74,7 @@ stat, handleErr := func() (*localStatusType, error) {
 			{{- if .Message }}
 			errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ .Message.Expr }}`,
+				Expr: {{ .Message.Expr | goString }},
 				OutType: reflect.TypeOf(""),
 				CacheIndex: {{ $def.CELCacheIndex }},
 			})
@@ -105,7 +105,7 @@ stat, handleErr := func() (*localStatusType, error) {
 			{{- end }}
 			if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 				Value: value,
-				Expr: `{{ .If.Expr }}`,
+				Expr: {{ .If.Expr | goString }},
 				CacheIndex: {{ $def.CELCacheIndex }},
 				Body: func(value *localValueType) error {
 					{{- if .MessageSet }}
@@ -131,7 +131,7 @@ stat, handleErr := func() (*localStatusType, error) {
 					{
 						detail, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 							Value: value,
-							Expr: `{{ .Expr }}`,
+							Expr: {{ .Expr | goString }},
 							OutType: reflect.TypeOf({{ .Type }}),
 							CacheIndex: {{ $def.CELCacheIndex }},
 						})
@@ -271,9 +271,9 @@ func(){
 if detail := grpcfed.PreconditionFailure(ctx, value, []*grpcfed.PreconditionFailureViolation{
 	{{- range .Violations }}
 	{
-		Type:    `{{ .Type.Expr }}`,
-		Subject: `{{ .Subject.Expr }}`,
-		Desc:    `{{ .Description.Expr }}`,
+		Type:    {{ .Type.Expr | goString }},
+		Subject: {{ .Subject.Expr | goString }},
+		Desc:    {{ .Description.Expr | goString }},
 		TypeCacheIndex: {{ .CELCacheIndex }},
 		SubjectCacheIndex: {{ .CELCacheIndex }},
 		DescCacheIndex: {{ .CELCacheIndex }},
@@ -288,8 +288,8 @@ if detail := grpcfed.PreconditionFailure(ctx, value, []*grpcfed.PreconditionFail
 if detail := grpcfed.BadRequest(ctx, value, []*grpcfed.BadRequestFieldViolation{
 	{{- range .FieldViolations }}
 	{
-		Field: `{{ .Field.Expr }}`,
-		Desc:  `{{ .Description.Expr }}`,
+		Field: {{ .Field.Expr | goString }},
+		Desc:  {{ .Description.Expr | goString }},
 		FieldCacheIndex: {{ .CELCacheIndex }},
 		DescCacheIndex: {{ .CELCacheIndex }},
 	},
@@ -302,8 +302,8 @@ if detail := grpcfed.BadRequest(ctx, value, []*grpcfed.BadRequestFieldViolation{
 {{- define "localizedMessage" }}
 if detail := grpcfed.LocalizedMessage(ctx, &grpcfed.LocalizedMessageParam{
 	Value: value,
-	Locale: "{{ .Locale }}",
-	Message: `{{ .Message.Expr }}`,
+	Locale: {{ .Locale | printf "%q" }},
+	Message: {{ .Message.Expr | goString }},
 	CacheIndex: {{ .CELCacheIndex }},
 }); detail != nil {
 	details = append(details, detail)
diff --git a/generator/templates/eval.go.tmpl b/generator/templates/eval.go.tmpl
index e45d19c..19e6c06 100644
--- a/generator/templates/eval.go.tmpl
+++ b/generator/templates/eval.go.tmpl
@@ -1,23 +1,23 @@
 {{- define "declDef" }}
 {{- $def := . }}
 /*
-{{ .ProtoComment }}
+{{ .ProtoComment | commentText }}
 */
 def_{{ .Key }} := func(ctx context.Context) error {
 	{{- if .IsMap -}}
 	{{- $mapResolver := .MapResolver -}}
 	return grpcfed.EvalDefMap(ctx, value, grpcfed.DefMap[{{ .Type }}, {{ $mapResolver.IteratorSourceType }}, *localValueType]{
 		{{- if .UseIf }}
-		If: `{{ .If }}`,
+		If: {{ .If | goString }},
 		IfCacheIndex: {{ .CELCacheIndex }},
 		{{- end }}
-		Name:   `{{ .Key }}`,
+		Name:   {{ .Key | goString }},
 		Type:   {{ .CELType }},
 		Setter: func(value *localValueType, v {{ .Type }}) error {
 			value.vars.{{ .VarFieldName }} = v
 			return nil
 		},
-		IteratorName: `{{ $mapResolver.IteratorName }}`,
+		IteratorName: {{ $mapResolver.IteratorName | goString }},
 		IteratorType: {{ $mapResolver.IteratorCELType }},
 		IteratorSource: func(value *localValueType) []{{ $mapResolver.IteratorSourceType }}{ return {{ $mapResolver.IteratorSource }} },
 		Iterator: func(ctx context.Context, value *grpcfed.MapIteratorValue) (any, error) {
@@ -25,7 +25,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $by := $mapResolver.MapExpr.Expr.By }}
 			return grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ $by.Expr }}`,
+				Expr: {{ $by.Expr | goString }},
 				OutType: reflect.TypeOf({{ $mapResolver.IteratorZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -34,7 +34,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $enumSelector := $mapResolver.EnumSelector }}
 			src, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ $mapResolver.MapExpr.Expr.Enum.By.Expr }}`,
+				Expr: {{ $mapResolver.MapExpr.Expr.Enum.By.Expr | goString }},
 				OutType: reflect.TypeOf({{ $mapResolver.EnumSrcZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -73,17 +73,17 @@ def_{{ .Key }} := func(ctx context.Context) error {
 	{{- else -}}
 	return grpcfed.EvalDef(ctx, value, grpcfed.Def[{{ .Type }}, *localValueType]{
 		{{- if .UseIf }}
-		If: `{{ .If }}`,
+		If: {{ .If | goString }},
 		IfCacheIndex: {{ .CELCacheIndex }},
 		{{- end }}
-		Name:   `{{ .Key }}`,
+		Name:   {{ .Key | goString }},
 		Type:   {{ .CELType }},
 		Setter: func(value *localValueType, v {{ .Type }}) error {
 			value.vars.{{ .VarFieldName }} = v
 			return nil
 		},
 		{{- if .IsBy }}
-		By:     `{{ .By.Expr }}`,
+		By:     {{ .By.Expr | goString }},
 		ByCacheIndex: {{ .CELCacheIndex }},
 		{{- else if .IsValidation }}
 		Validation:  func(ctx context.Context, value *localValueType) error {
@@ -94,7 +94,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $enumSelector := .EnumSelector }}
 			src, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ .Enum.By.Expr }}`,
+				Expr: {{ .Enum.By.Expr | goString }},
 				OutType: reflect.TypeOf({{ .EnumSrcZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -139,7 +139,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 				{{- template "retry" (map "Retry" .Retry) }}
 				return grpcfed.WithRetry(ctx, &grpcfed.RetryParam[{{ .ReturnType }}]{
 					Value: value,
-					If: `{{ .Retry.If.Expr }}`,
+					If: {{ .Retry.If.Expr | goString }},
 					CacheIndex: {{ .CELCacheIndex }},
 					BackOff: b,
 					Body: func() (*{{ .ReturnType }}, error) {
@@ -154,7 +154,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- template "retry" (map "Retry" .Retry) }}
 			ret, err := grpcfed.WithRetry(ctx, &grpcfed.RetryParam[{{ .ReturnType }}]{
 				Value: value,
-				If: `{{ .Retry.If.Expr }}`,
+				If: {{ .Retry.If.Expr | goString }},
 				CacheIndex: {{ .CELCacheIndex }},
 				BackOff: b,
 				Body: func() (*{{ .ReturnType }}, error) {
@@ -220,7 +220,7 @@ if err := eg.Wait(); err != nil {
 {{- if $depGraph }}
 // A tree view of message dependencies is shown below.
 /*
-{{ $depGraph }}*/
+{{ $depGraph | commentText }}*/
 {{- end }}
 {{- $defGroups := .VariableDefinitionGroups }}
 {{- $defGroupsLen := len $defGroups }}
@@ -254,12 +254,12 @@ if err := eg.Wait(); err != nil {
 {{ $arg.ProtoComment }}
 if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 	Value: value,
-	Expr: `{{ $arg.If.Expr }}`,
+	Expr: {{ $arg.If.Expr | goString }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Body: func(value *localValueType) error {
 		return grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 			Value: value,
-			Expr: `{{ $arg.CEL.Expr }}`,
+			Expr: {{ $arg.CEL.Expr | goString }},
 			CacheIndex: {{ $def.CELCacheIndex }},
 			Setter: func(v {{ $arg.Type }}) error {
 				{{- template "setArgumentBySetter" $arg }}
@@ -273,7 +273,7 @@ if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 {{ $arg.ProtoComment }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 	Value: value,
-	Expr: `{{ $arg.CEL.Expr }}`,
+	Expr: {{ $arg.CEL.Expr | goString }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Setter: func(v {{ $arg.Type }}) error {
 		{{- template "setArgumentBySetter" $arg }}
@@ -292,7 +292,7 @@ if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 	Value: value,
-	Expr: `{{ $arg.CEL.Expr }}`,
+	Expr: {{ $arg.CEL.Expr | goString }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Setter: func(v {{ $arg.Type }}) error {
 		{{- template "setArgumentBySetter" $arg }}
diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index b7369fd..533aff7 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -34,7 +34,7 @@ var {{ .Name }}_attrMap = grpcfed.EnumAttributeMap[{{ .Name }}]{
 	{{- range .Values }}
 	{{ .Name }}: grpcfed.EnumValueAttributeMap{
 		{{- range .Attrs }}
-		`{{ .Name }}`: `{{ .Value }}`,
+		{{ .Name | goString }}: {{ .Value | goString }},
 		{{- end }}
 	},
 	{{- end }}
@@ -139,7 +139,7 @@ type {{ $serviceName }}CELPluginConfig struct {
 // {{ $serviceName }}Env keeps the values read from environment variables.
 type {{ $serviceName }}Env struct {
 	{{- range $env.Vars }}
-	{{ .Name }} {{ .Type }} `{{ .Tag }}`
+	{{ .Name }} {{ .Type }} {{ .Tag | goString }}
 	{{- end }}
 }
 
@@ -426,12 +426,12 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 	{{- if .IsValidation }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
-		Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
+		Expr: {{ .Expr.Validation.Error.If.Expr | goString }},
 		CacheIndex: {{ .CELCacheIndex }},
 		Body: func(value *localValueType) error {
 			errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ .Expr.Validation.Error.Message.Expr }}`,
+				Expr: {{ .Expr.Validation.Error.Message.Expr | goString }},
 				OutType: reflect.TypeOf(""),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -712,7 +712,7 @@ func (s *{{ $serviceName }}) {{ .Name }}(v {{ .ValueType }}) slog.Value {
 {{- range $oneofFields }}
 oneof_{{ .Name }}, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 	Value: value,
-	Expr: `{{ .Expr }}`,
+	Expr: {{ .Expr | goString }},
 	OutType: reflect.TypeOf(true),
 	CacheIndex: {{ $msg.CELCacheIndex }},
 })
@@ -742,7 +742,7 @@ default:
 {{- if $value.By }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $value.Type }}]{
 	Value: value,
-	Expr: `{{ $value.By }}`,
+	Expr: {{ $value.By | goString }},
 	CacheIndex: {{ $msg.CELCacheIndex }},
 	Setter: func(v {{ $value.Type }}) error {
 		{{- template "setReturnValueBySetter" $value.SetterParam }}
@@ -769,7 +769,7 @@ ret.{{ $name }} = {{ $value.Value }}
 {{ $value.ProtoComment }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $value.Type }}]{
 	Value: value,
-	Expr: `{{ $value.CEL.Expr }}`,
+	Expr: {{ $value.CEL.Expr | goString }},
 	CacheIndex: {{ $msg.CELCacheIndex }},
 	Setter: func(v {{ $value.Type }}) error {
 		{{- template "setReturnValueBySetter" $value.SetterParam }}
diff --git a/generator/templates/validation.go.tmpl b/generator/templates/validation.go.tmpl
index 6add04c..3afe751 100644
--- a/generator/templates/validation.go.tmpl
+++ b/generator/templates/validation.go.tmpl
@@ -12,13 +12,13 @@ if _, err := func() (any, error) {
 {{- end }}
 if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 	Value: value,
-	Expr: `{{ $error.If.Expr }}`,
+	Expr: {{ $error.If.Expr | goString }},
 	CacheIndex: {{ $error.CELCacheIndex }},
 	Body: func(value *localValueType) error {
 		{{- if $error.Message }}
 		errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 			Value: value,
-			Expr: `{{ $error.Message.Expr }}`,
+			Expr: {{ $error.Message.Expr | goString }},
 			OutType: reflect.TypeOf(""),
 			CacheIndex: {{ $error.CELCacheIndex }},
 		})
@@ -43,7 +43,7 @@ if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 		{{- end }}
 		if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 			Value: value,
-			Expr: `{{ .If.Expr }}`,
+			Expr: {{ .If.Expr | goString }},
 			CacheIndex: {{ $error.CELCacheIndex }},
 			Body: func(value *localValueType) error {
 				{{- if .MessageSet }}
@@ -69,7 +69,7 @@ if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 				{
 					detail, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 						Value: value,
-						Expr: `{{ .Expr }}`,
+						Expr: {{ .Expr | goString }},
 						OutType: reflect.TypeOf({{ .Type }}),
 						CacheIndex: {{ $error.CELCacheIndex }},
 					})
-- 
2.43.0


From fab9e6c71aab9e8c8a3f9237f2fb50e33922a3fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:55 +0000
Subject: [PATCH 35/67] fix: keep import aliases apart from all other names in
 the generated code

---
 generator/code_generator.go | 40 +++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index b71ded6..5c327ff 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -8,6 +8,7 @@ import (
 	"go/format"
 	"log"
 	"log/slog"
+	"path"
 	"sort"
 	"strings"
 	"text/template"
@@ -592,12 +593,43 @@ func (f *File) DefaultImports() []*Import {
 	return usedPkgs
 }
 
+// reservedAliases are the names that can't be an alias of an imported package,
+// because the generated code uses them for something else.
+var reservedAliases = []string{
+	// keywords.
+	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto",
+	"if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var",
+	// predeclared identifiers.
+	"any", "append", "bool", "byte", "error", "false", "float32", "float64", "int32", "int64", "len", "make", "new", "nil",
+	"recover", "string", "true", "uint32", "uint64",
+	// functions that can't be declared as a package.
+	"init", "main",
+	// local variables.
+	"args", "attrs", "b", "casted", "celCacheMap", "celEnvOpts", "celHelper", "celPlugins", "celTypeHelperFieldMap", "cfg", "client", "clients",
+	"ctx", "customRes", "defaultEnvOpts", "dst", "e", "eg", "env", "err", "errorHandler", "from", "fromMD", "instance", "key", "logger", "loc", "oneofV", "p",
+	"plugin", "pluginDeps", "req", "res", "resp", "ret", "retErr", "s", "span", "stat", "svc", "svcVar", "tracer", "v", "value", "vars",
+}
+
+// packageName returns the name by which the generated code refers to the imported package.
+func (i *Import) packageName() string {
+	if i.Alias != "" {
+		return i.Alias
+	}
+	return path.Base(i.Path)
+}
+
 func (f *File) Imports() []*Import {
 	importPathMap := make(map[string]struct{})
 	importAliasMap := make(map[string]struct{})
 	for _, imprt := range f.DefaultImports() {
 		importPathMap[imprt.Path] = struct{}{}
-		importAliasMap[imprt.Alias] = struct{}{}
+		importAliasMap[imprt.packageName()] = struct{}{}
+	}
+	for _, imprt := range f.StandardImports() {
+		importAliasMap[imprt.packageName()] = struct{}{}
+	}
+	for _, name := range reservedAliases {
+		importAliasMap[name] = struct{}{}
 	}
 	curImportPath := f.GoPackage.ImportPath
 
@@ -617,8 +649,12 @@ func (f *File) Imports() []*Import {
 		if _, exists := importAliasMap[pkg.Name]; exists {
 			// conflict alias name
 			suffixIndex := 1 // start from 1.
+			prefix := pkg.Name
+			if prefix == "ctx" {
+				prefix += "_" // ctx1, ctx2, ... are local variables.
+			}
 			for {
-				alias = pkg.Name + fmt.Sprint(suffixIndex)
+				alias = prefix + fmt.Sprint(suffixIndex)
 				if _, exists := importAliasMap[alias]; !exists {
 					break
 				}
-- 
2.43.0


From 6241dfb4cf05e6a602bacecfa4678d2c21da2a8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:11:59 +0000
Subject: [PATCH 36/67] fix: do not generate code for services which are not
 implemented by gRPC Federation

---
 generator/code_generator.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 5c327ff..09f4f5b 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -62,6 +62,10 @@ func (f *File) Source() string {
 func (f *File) Services() []*Service {
 	ret := make([]*Service, 0, len(f.File.Services))
 	for _, svc := range f.File.Services {
+		if svc.Rule == nil {
+			// the service is not implemented by gRPC Federation.
+			continue
+		}
 		ret = append(ret, newService(svc, f))
 	}
 	return ret
@@ -517,7 +521,7 @@ func (f *File) StandardImports() []*Import {
 		existsServiceDef bool
 		existsPluginDef  bool
 	)
-	if len(f.File.Services) != 0 {
+	if f.File.HasServiceWithRule() {
 		existsServiceDef = true
 	}
 	if len(f.File.CELPlugins) != 0 {
@@ -550,7 +554,7 @@ func (f *File) DefaultImports() []*Import {
 		existsPluginDef   bool
 		existsEnumAttrDef bool
 	)
-	if len(f.File.Services) != 0 {
+	if f.File.HasServiceWithRule() {
 		existsServiceDef = true
 	}
 	if len(f.File.CELPlugins) != 0 {
@@ -715,7 +719,7 @@ func (f *File) Enums() []*Enum {
 			continue
 		}
 		// Currently Enums are used only from a File contains Services.
-		if len(f.File.Services) != 0 {
+		if f.File.HasServiceWithRule() {
 			f.pkgMap[enum.GoPackage()] = struct{}{}
 		}
 		var enumAttr *EnumAttribute
-- 
2.43.0


From 4bc3bf6a03cc89e888204bae5a0f019697e6e61f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 37/67] fix: return the value and the error from enum casts
 that need no conversion

---
 generator/code_generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 09f4f5b..6ac099b 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3220,10 +3220,10 @@ func (d *VariableDefinition) Type() string {
 func (d *VariableDefinition) EnumCastFunc() string {
 	typ := d.Enum().By.Out
 	if typ == nil {
-		return "v"
+		return "v, nil"
 	}
 	if typ.Enum == d.VariableDefinition.Expr.Type.Enum {
-		return "v"
+		return "v, nil"
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
@@ -3301,12 +3301,12 @@ func (r *MapResolver) EnumCastFunc() (string, error) {
 	}
 	typ := enumExpr.By.Out
 	if typ == nil {
-		return "v", nil
+		return "v, nil", nil
 	}
 	outType := r.MapExpr.Expr.Type.Clone()
 	outType.Repeated = false
 	if typ.Enum == outType.Enum {
-		return "v", nil
+		return "v, nil", nil
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
-- 
2.43.0


From bec8d9bcd5a3bb0b8ce6d8105a7fe11a8bf4be6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:12:08 +0000
Subject: [PATCH 38/67] fix: refer to fields, types, services and methods by
 the names protoc-gen-go gives them

---
 generator/code_generator.go | 122 ++++++++++++++----------------------
 util/name.go                |  27 ++++++++
 2 files changed, 73 insertions(+), 76 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 6ac099b..b280153 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -495,7 +495,7 @@ type ServiceVariable struct {
 }
 
 func (v *ServiceVariable) Name() string {
-	return util.ToPublicGoVariable(v.ServiceVariable.Name)
+	return util.ToPublicGoField(v.ServiceVariable.Name)
 }
 
 func (v *ServiceVariable) ProtoName() string {
@@ -818,7 +818,7 @@ func newTypeDeclaresWithMessage(file *File, msg *resolver.Message) []*Type {
 			if !def.Used {
 				continue
 			}
-			fieldName := util.ToPublicGoVariable(def.Name)
+			fieldName := util.ToPublicGoField(def.Name)
 			if typ.HasField(fieldName) {
 				continue
 			}
@@ -834,7 +834,7 @@ func newTypeDeclaresWithMessage(file *File, msg *resolver.Message) []*Type {
 	}
 	for _, field := range arg.Fields {
 		typ.ProtoFields = append(typ.ProtoFields, &ProtoField{Field: field})
-		fieldName := util.ToPublicGoVariable(field.Name)
+		fieldName := util.ToPublicGoField(field.Name)
 		if _, exists := fieldNameMap[fieldName]; exists {
 			continue
 		}
@@ -858,7 +858,7 @@ func newTypeDeclaresWithMessage(file *File, msg *resolver.Message) []*Type {
 
 	declTypes := []*Type{typ}
 	for _, field := range msg.CustomResolverFields() {
-		typeName := fmt.Sprintf("%s_%sArgument", msgName, util.ToPublicGoVariable(field.Name))
+		typeName := fmt.Sprintf("%s_%sArgument", msgName, util.ToPublicGoField(field.Name))
 		fields := []*Field{{Type: argName}}
 		if msg.HasCustomResolver() {
 			fields = append(fields, &Field{
@@ -925,7 +925,7 @@ func (s *Service) OneofTypes() []*OneofType {
 				)
 				fieldGetterNames = append(
 					fieldGetterNames,
-					fmt.Sprintf("Get%s", util.ToPublicGoVariable(field.Name)),
+					fmt.Sprintf("Get%s", util.ToPublicGoField(field.Name)),
 				)
 			}
 			cloned := oneof.Fields[0].Type.Clone()
@@ -933,7 +933,7 @@ func (s *Service) OneofTypes() []*OneofType {
 			returnZeroValue := toMakeZeroValue(s.file, cloned)
 			ret = append(ret, &OneofType{
 				Name:             oneof.Name,
-				FieldName:        util.ToPublicGoVariable(oneof.Name),
+				FieldName:        util.ToPublicGoField(oneof.Name),
 				MessageProtoFQDN: oneof.Message.FQDN(),
 				TypeDeclare:      toCELTypeDeclare(oneof.Fields[0].Type),
 				FieldZeroValues:  fieldZeroValues,
@@ -959,7 +959,7 @@ type ServiceDependency struct {
 }
 
 func (dep *ServiceDependency) ServiceName() string {
-	return fmt.Sprintf("%s.%s", dep.Service.PackageName(), dep.Service.Name)
+	return fmt.Sprintf("%s.%s", dep.Service.PackageName(), util.ToPublicGoVariable(dep.Service.Name))
 }
 
 func (dep *ServiceDependency) NameConfig() string {
@@ -980,7 +980,7 @@ func (dep *ServiceDependency) ClientType() string {
 	return fmt.Sprintf(
 		"%s.%sClient",
 		dep.file.getAlias(dep.Service.GoPackage()),
-		dep.Service.Name,
+		util.ToPublicGoVariable(dep.Service.Name),
 	)
 }
 
@@ -988,7 +988,7 @@ func (dep *ServiceDependency) ClientConstructor() string {
 	return fmt.Sprintf(
 		"%s.New%sClient",
 		dep.file.getAlias(dep.Service.GoPackage()),
-		dep.Service.Name,
+		util.ToPublicGoVariable(dep.Service.Name),
 	)
 }
 
@@ -1022,7 +1022,7 @@ func (r *CustomResolver) fullName() string {
 	ur := r.CustomResolver
 	msg := fullMessageName(ur.Message)
 	if ur.Field != nil {
-		return fmt.Sprintf("%s_%s", msg, util.ToPublicGoVariable(ur.Field.Name))
+		return fmt.Sprintf("%s_%s", msg, util.ToPublicGoField(ur.Field.Name))
 	}
 	return msg
 }
@@ -1091,7 +1091,7 @@ type ProtoField struct {
 }
 
 func (f *ProtoField) FieldName() string {
-	return util.ToPublicGoVariable(f.Field.Name)
+	return util.ToPublicGoField(f.Field.Name)
 }
 
 func (f *ProtoField) Name() string {
@@ -1223,7 +1223,7 @@ func (f *File) toTypeText(t *resolver.Type) string {
 
 func (f *File) oneofTypeToText(oneofField *resolver.OneofField) string {
 	msg := f.messageTypeToText(oneofField.Oneof.Message)
-	oneof := fmt.Sprintf("%s_%s", msg, util.ToPublicGoVariable(oneofField.Field.Name))
+	oneof := fmt.Sprintf("%s_%s", msg, util.ToPublicGoField(oneofField.Field.Name))
 	if oneofField.IsConflict() {
 		oneof += "_"
 	}
@@ -1249,11 +1249,7 @@ func (f *File) messageTypeToText(msg *resolver.Message) string {
 		value := f.toTypeText(msg.Field("value").Type)
 		return fmt.Sprintf("map[%s]%s", key, value)
 	}
-	var names []string
-	for _, name := range append(msg.ParentMessageNames(), msg.Name) {
-		names = append(names, util.ToPublicGoVariable(name))
-	}
-	name := strings.Join(names, "_")
+	name := util.ToPublicGoType(append(msg.ParentMessageNames(), msg.Name)...)
 	if f.GoPackage.ImportPath == msg.GoPackage().ImportPath {
 		return fmt.Sprintf("*%s", name)
 	}
@@ -1263,11 +1259,7 @@ func (f *File) messageTypeToText(msg *resolver.Message) string {
 func (f *File) enumTypeToText(enum *resolver.Enum) string {
 	var name string
 	if enum.Message != nil {
-		var names []string
-		for _, n := range append(enum.Message.ParentMessageNames(), enum.Message.Name, enum.Name) {
-			names = append(names, util.ToPublicGoVariable(n))
-		}
-		name = strings.Join(names, "_")
+		name = util.ToPublicGoType(append(enum.Message.ParentMessageNames(), enum.Message.Name, enum.Name)...)
 	} else {
 		name = util.ToPublicGoVariable(enum.Name)
 	}
@@ -1399,24 +1391,14 @@ func (s *Service) setLogValueByType(typ *resolver.Type) {
 func (s *Service) setLogValueByMessageArgument(msg *resolver.Message) {
 	arg := msg.Rule.MessageArgument
 
-	// The message argument belongs to "grpc.federation.private" package,
-	// but we want to change the package name temporarily
-	// because we want to use the name of the package to which the message belongs as log value's function name.
-	pkg := arg.File.Package
-	defer func() {
-		// restore the original package name.
-		arg.File.Package = pkg
-	}()
-	// replace package name to message's package name.
-	arg.File.Package = msg.File.Package
-
-	name := s.messageToLogValueName(arg)
+	argName := fmt.Sprintf("%sArgument", fullMessageName(msg))
+	name := fmt.Sprintf("logvalue_%s", argName)
 	if _, exists := s.nameToLogValueMap[name]; exists {
 		return
 	}
 	logValue := &LogValue{
 		Name:      name,
-		ValueType: "*" + s.ServiceName() + "_" + protoFQDNToPublicGoName(arg.FQDN()),
+		ValueType: fmt.Sprintf("*%s_%s", s.ServiceName(), argName),
 		Attrs:     make([]*LogValueAttr, 0, len(arg.Fields)),
 		Type:      resolver.NewMessageType(arg, false),
 	}
@@ -1521,7 +1503,7 @@ func (s *Service) logType(typ *resolver.Type) string {
 
 func (s *Service) logValue(field *resolver.Field) string {
 	typ := field.Type
-	base := fmt.Sprintf("v.Get%s()", util.ToPublicGoVariable(field.Name))
+	base := fmt.Sprintf("v.Get%s()", util.ToPublicGoField(field.Name))
 	if typ.Kind == types.Message {
 		return fmt.Sprintf("%s(%s)", s.logValueFuncName(typ), base)
 	} else if typ.Kind == types.Enum {
@@ -1563,7 +1545,7 @@ func (s *Service) logMapValue(value *resolver.Field) string {
 
 func (s *Service) msgArgumentLogValue(field *resolver.Field) string {
 	typ := field.Type
-	base := fmt.Sprintf("v.%s", util.ToPublicGoVariable(field.Name))
+	base := fmt.Sprintf("v.%s", util.ToPublicGoField(field.Name))
 	if typ.Kind == types.Message {
 		return fmt.Sprintf("%s(%s)", s.logValueFuncName(typ), base)
 	} else if typ.Kind == types.Enum {
@@ -1652,7 +1634,7 @@ func (s *Service) dependentMethodsByDefinitions(defs resolver.VariableDefinition
 		}
 		if call := varDef.Expr.Call; call != nil && call.Method != nil {
 			ret = append(ret, &DependentMethod{
-				Name: fmt.Sprintf("%s_%s", fullServiceName(call.Method.Service), call.Method.Name),
+				Name: fmt.Sprintf("%s_%s", fullServiceName(call.Method.Service), util.ToPublicGoVariable(call.Method.Name)),
 				FQDN: "/" + call.Method.FQDN(),
 			})
 		}
@@ -1729,7 +1711,7 @@ func (m *Method) ReturnTypeWithoutPtr() string {
 func (m *Method) ReturnTypeArguments() []string {
 	var args []string
 	for _, field := range m.Request.Fields {
-		args = append(args, util.ToPublicGoVariable(field.Name))
+		args = append(args, util.ToPublicGoField(field.Name))
 	}
 	return args
 }
@@ -1873,7 +1855,7 @@ func (m *Message) DeclVariables() []*DeclVariable {
 				continue
 			}
 			valueMap[def.Name] = &DeclVariable{
-				Name: util.ToPublicGoVariable(def.Name),
+				Name: util.ToPublicGoField(def.Name),
 				Type: m.file.toTypeText(def.Expr.Type),
 			}
 		}
@@ -2292,11 +2274,7 @@ func (f *CastField) ToStruct() *CastStruct {
 		})
 	}
 
-	var names []string
-	for _, n := range append(toMsg.ParentMessageNames(), toMsg.Name) {
-		names = append(names, util.ToPublicGoVariable(n))
-	}
-	name := strings.Join(names, "_")
+	name := util.ToPublicGoType(append(toMsg.ParentMessageNames(), toMsg.Name)...)
 	if f.service.GoPackage().ImportPath != toMsg.GoPackage().ImportPath {
 		name = fmt.Sprintf("%s.%s", f.file.getAlias(toMsg.GoPackage()), name)
 	}
@@ -2359,11 +2337,7 @@ func (f *CastField) ToOneof() *CastOneof {
 	fromType.OneofField = nil
 	toType.OneofField = nil
 	requiredCast := requiredCast(fromType, toType)
-	var names []string
-	for _, n := range append(msg.ParentMessageNames(), msg.Name, toField.Name) {
-		names = append(names, util.ToPublicGoVariable(n))
-	}
-	name := strings.Join(names, "_")
+	name := fmt.Sprintf("%s_%s", util.ToPublicGoType(append(msg.ParentMessageNames(), msg.Name)...), util.ToPublicGoField(toField.Name))
 	if toField.IsConflict() {
 		name += "_"
 	}
@@ -2372,7 +2346,7 @@ func (f *CastField) ToOneof() *CastOneof {
 	}
 	return &CastOneof{
 		Name:         name,
-		FieldName:    util.ToPublicGoVariable(toField.Name),
+		FieldName:    util.ToPublicGoField(toField.Name),
 		RequiredCast: requiredCast,
 		CastName:     castFuncName(fromType, toType),
 	}
@@ -2415,7 +2389,7 @@ func (m *Message) CustomResolverArguments() []*Argument {
 				continue
 			}
 			args = append(args, &Argument{
-				Name:  util.ToPublicGoVariable(name),
+				Name:  util.ToPublicGoField(name),
 				Value: toUserDefinedVariable(name),
 			})
 			argNameMap[name] = struct{}{}
@@ -2475,10 +2449,10 @@ func (m *Message) autoBindFieldToReturnField(field *resolver.Field, autoBindFiel
 		name = autoBindField.VariableDefinition.Name
 	}
 
-	fieldName := util.ToPublicGoVariable(field.Name)
+	fieldName := util.ToPublicGoField(field.Name)
 
 	var (
-		value    = fmt.Sprintf("value.vars.%s.Get%s()", util.ToPublicGoVariable(name), fieldName)
+		value    = fmt.Sprintf("value.vars.%s.Get%s()", util.ToPublicGoField(name), fieldName)
 		castFunc string
 	)
 	if field.RequiredTypeConversion() {
@@ -2562,7 +2536,7 @@ func (m *Message) celValueToReturnField(field *resolver.Field, value *resolver.C
 		}),
 		Type: typ,
 		SetterParam: &SetterParam{
-			Name:         util.ToPublicGoVariable(field.Name),
+			Name:         util.ToPublicGoField(field.Name),
 			Value:        "v",
 			RequiredCast: requiredCast,
 			EnumSelector: enumSelectorSetterParam,
@@ -2602,10 +2576,10 @@ func (f *File) createEnumSelectorParam(msg *resolver.Message, toType *resolver.T
 
 func (m *Message) customResolverToReturnField(field *resolver.Field) *CustomResolverReturnField {
 	msgName := fullMessageName(m.Message)
-	resolverName := fmt.Sprintf("Resolve_%s_%s", msgName, util.ToPublicGoVariable(field.Name))
-	requestType := fmt.Sprintf("%s_%sArgument", msgName, util.ToPublicGoVariable(field.Name))
+	resolverName := fmt.Sprintf("Resolve_%s_%s", msgName, util.ToPublicGoField(field.Name))
+	requestType := fmt.Sprintf("%s_%sArgument", msgName, util.ToPublicGoField(field.Name))
 	return &CustomResolverReturnField{
-		Name:                util.ToPublicGoVariable(field.Name),
+		Name:                util.ToPublicGoField(field.Name),
 		ResolverName:        resolverName,
 		RequestType:         requestType,
 		MessageArgumentName: fmt.Sprintf("%sArgument", msgName),
@@ -2644,7 +2618,7 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 			fromType := rule.Oneof.By.Out
 			toType := field.Type
 
-			fieldName := util.ToPublicGoVariable(field.Name)
+			fieldName := util.ToPublicGoField(field.Name)
 			oneofTypeName := strings.TrimPrefix(m.file.messageTypeToText(m.Message), "*") + "_" + fieldName
 			if toType.OneofField.IsConflict() {
 				oneofTypeName += "_"
@@ -2674,7 +2648,7 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 					FieldOneofRule: rule.Oneof,
 					Message:        m,
 					SetterParam: &SetterParam{
-						Name:         util.ToPublicGoVariable(oneof.Name),
+						Name:         util.ToPublicGoField(oneof.Name),
 						Value:        value,
 						EnumSelector: nil,
 						RequiredCast: castFunc != "",
@@ -2693,7 +2667,7 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 					FieldOneofRule: rule.Oneof,
 					Message:        m,
 					SetterParam: &SetterParam{
-						Name:         util.ToPublicGoVariable(oneof.Name),
+						Name:         util.ToPublicGoField(oneof.Name),
 						Value:        value,
 						EnumSelector: nil,
 						RequiredCast: castFunc != "",
@@ -2704,7 +2678,7 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 		}
 	}
 	return &OneofReturnField{
-		Name:              util.ToPublicGoVariable(oneof.Name),
+		Name:              util.ToPublicGoField(oneof.Name),
 		OneofCaseFields:   caseFields,
 		OneofDefaultField: defaultField,
 	}, nil
@@ -2796,7 +2770,7 @@ func (d *VariableDefinition) Key() string {
 }
 
 func (d *VariableDefinition) VarFieldName() string {
-	return util.ToPublicGoVariable(d.VariableDefinition.Name)
+	return util.ToPublicGoField(d.VariableDefinition.Name)
 }
 
 func (d *VariableDefinition) UseIf() bool {
@@ -2861,7 +2835,7 @@ func (d *VariableDefinition) Caller() string {
 	switch {
 	case expr.Call != nil:
 		method := expr.Call.Method
-		methodName := method.Name
+		methodName := util.ToPublicGoVariable(method.Name)
 		svcName := fullServiceName(method.Service)
 		return fmt.Sprintf("client.%sClient.%s", svcName, methodName)
 	case expr.Message != nil:
@@ -3116,7 +3090,7 @@ func (d *VariableDefinition) RequestType() string {
 		request := expr.Call.Request
 		return fmt.Sprintf("%s.%s",
 			d.file.getAlias(request.Type.GoPackage()),
-			util.ToPublicGoVariable(request.Type.Name),
+			util.ToPublicGoType(append(request.Type.ParentMessageNames(), request.Type.Name)...),
 		)
 	case expr.Message != nil:
 		msgName := fullMessageName(expr.Message.Message)
@@ -3140,7 +3114,7 @@ func (d *VariableDefinition) ReturnType() string {
 		response := expr.Call.Method.Response
 		return fmt.Sprintf("%s.%s",
 			d.file.getAlias(response.GoPackage()),
-			response.Name,
+			util.ToPublicGoType(append(response.ParentMessageNames(), response.Name)...),
 		)
 	case expr.Message != nil:
 		return expr.Message.Message.Name
@@ -3498,15 +3472,15 @@ func argument(file *File, msgArg *resolver.Message, arg *resolver.Argument) []*A
 		oneofFieldName string
 	)
 	if arg.Type != nil && arg.Type.OneofField != nil {
-		oneofName = util.ToPublicGoVariable(arg.Type.OneofField.Oneof.Name)
+		oneofName = util.ToPublicGoField(arg.Type.OneofField.Oneof.Name)
 		oneofFieldName = strings.TrimPrefix(file.oneofTypeToText(arg.Type.OneofField), "*")
 	}
 	var inlineFields []*Argument
 	if arg.Value.Inline {
 		for _, field := range arg.Value.CEL.Out.Message.Fields {
 			inlineFields = append(inlineFields, &Argument{
-				Name:           util.ToPublicGoVariable(field.Name),
-				Value:          fmt.Sprintf("v.Get%s()", util.ToPublicGoVariable(field.Name)),
+				Name:           util.ToPublicGoField(field.Name),
+				Value:          fmt.Sprintf("v.Get%s()", util.ToPublicGoField(field.Name)),
 				OneofName:      oneofName,
 				OneofFieldName: oneofFieldName,
 				If:             arg.If,
@@ -3582,7 +3556,7 @@ func argument(file *File, msgArg *resolver.Message, arg *resolver.Argument) []*A
 	}
 	return []*Argument{
 		{
-			Name:           util.ToPublicGoVariable(arg.Name),
+			Name:           util.ToPublicGoField(arg.Name),
 			Value:          argValue,
 			CEL:            arg.Value.CEL,
 			InlineFields:   inlineFields,
@@ -3697,18 +3671,14 @@ func generateGoContent(tmpl *template.Template, f *File) ([]byte, error) {
 var tmpls embed.FS
 
 func toUserDefinedVariable(name string) string {
-	return "value.vars." + util.ToPublicGoVariable(name)
+	return "value.vars." + util.ToPublicGoField(name)
 }
 
 func toEnumValuePrefix(file *File, typ *resolver.Type) string {
 	enum := typ.Enum
 	var name string
 	if enum.Message != nil {
-		var names []string
-		for _, n := range append(enum.Message.ParentMessageNames(), enum.Message.Name) {
-			names = append(names, util.ToPublicGoVariable(n))
-		}
-		name = strings.Join(names, "_")
+		name = util.ToPublicGoType(append(enum.Message.ParentMessageNames(), enum.Message.Name)...)
 	} else {
 		name = util.ToPublicGoVariable(enum.Name)
 	}
diff --git a/util/name.go b/util/name.go
index 8618fc0..1eece2b 100644
--- a/util/name.go
+++ b/util/name.go
@@ -34,3 +34,30 @@ func ToPrivateVariable(name string) string {
 	}
 	return strings.ToLower(string(name[0])) + name[1:]
 }
+
+// reservedGoFields are the names of the methods that every generated message has. A field can't have the same name.
+var reservedGoFields = map[string]struct{}{
+	"Reset":               {},
+	"String":              {},
+	"ProtoMessage":        {},
+	"Marshal":             {},
+	"Unmarshal":           {},
+	"ExtensionRangeArray": {},
+	"ExtensionMap":        {},
+	"Descriptor":          {},
+}
+
+// ToPublicGoField returns the name which protoc-gen-go gives to the field ( or oneof ) of a message.
+func ToPublicGoField(name string) string {
+	goName := ToPublicGoVariable(name)
+	if _, exists := reservedGoFields[goName]; exists {
+		return goName + "_"
+	}
+	return goName
+}
+
+// ToPublicGoType returns the name which protoc-gen-go gives to the message or enum.
+// names are the names of the messages the type is nested in followed by the name of the type.
+func ToPublicGoType(names ...string) string {
+	return ToPublicGoVariable(strings.Join(names, "."))
+}
-- 
2.43.0


From 5872332b6af265e473d1850d55956399b56dac57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:12:11 +0000
Subject: [PATCH 39/67] fix: generate compilable code for methods with both a
 timeout and a custom response

---
 generator/code_generator.go        |  5 +++--
 generator/templates/server.go.tmpl | 12 +++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index b280153..ce3b952 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1704,8 +1704,9 @@ func (m *Method) ReturnType() string {
 	return m.file.toTypeText(resolver.NewMessageType(m.Response, false))
 }
 
-func (m *Method) ReturnTypeWithoutPtr() string {
-	return strings.TrimPrefix(m.ReturnType(), "*")
+// FederationReturnTypeWithoutPtr returns the type of the message which the federation service resolves for this method.
+func (m *Method) FederationReturnTypeWithoutPtr() string {
+	return strings.TrimPrefix(m.file.toTypeText(resolver.NewMessageType(m.FederationResponse(), false)), "*")
 }
 
 func (m *Method) ReturnTypeArguments() []string {
diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index 533aff7..72882ac 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -484,7 +484,7 @@ func (s *{{ $serviceName }}) {{ .Name }}(ctx context.Context, req {{ .RequestTyp
 	}()
 
 	{{- if .UseTimeout }}
-	res, err := grpcfed.WithTimeout[{{ .ReturnTypeWithoutPtr }}](ctx, "{{ .ProtoFQDN }}", {{ .Timeout }}, func(ctx context.Context) ({{ .ReturnType }}, error) {
+	{{ if .CustomResponse }}customRes{{ else }}res{{ end }}, err := grpcfed.WithTimeout[{{ .FederationReturnTypeWithoutPtr }}](ctx, "{{ .ProtoFQDN }}", {{ .Timeout }}, func(ctx context.Context) (*{{ .FederationReturnTypeWithoutPtr }}, error) {
 		return s.{{ .ResolverName }}(ctx, &{{ .ArgumentName }}{
 			{{- range .ReturnTypeArguments }}
 			{{ . }}: req.Get{{ . }}(),
@@ -496,7 +496,17 @@ func (s *{{ $serviceName }}) {{ .Name }}(ctx context.Context, req {{ .RequestTyp
 		grpcfed.OutputErrorLog(ctx, err)
 		return nil, err
 	}
+	{{- if .CustomResponse }}
+	ret, err := s.{{ .ResponseCastFuncName }}(customRes)
+	if err != nil {
+		grpcfed.RecordErrorToSpan(ctx, err)
+		grpcfed.OutputErrorLog(ctx, err)
+		return nil, err
+	}
+	return ret, nil
+	{{- else }}
 	return res, nil
+	{{- end }}
 	{{- else if .CustomResponse }}
 	customRes, err := s.{{ .ResolverName }}(ctx, &{{ .ArgumentName }}{
 		{{- range .ReturnTypeArguments }}
-- 
2.43.0


From 7262c96fbeeb86330fbcd4bc6f514a417e84dd76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:12:14 +0000
Subject: [PATCH 40/67] fix: convert oneof fields in all combinations of
 conversions

---
 generator/code_generator.go      | 114 ++++++++++++++++++++++++++-----
 generator/templates/cast.go.tmpl |  27 ++++++++
 generator/templates/eval.go.tmpl |   2 +-
 3 files changed, 124 insertions(+), 19 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index ce3b952..30fc278 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1109,12 +1109,12 @@ type Field struct {
 
 func toMakeZeroValue(file *File, t *resolver.Type) string {
 	text := file.toTypeText(t)
-	if t.Repeated || t.Kind == types.Bytes {
-		return fmt.Sprintf("%s(nil)", text)
-	}
 	if t.OneofField != nil {
 		return fmt.Sprintf("(%s)(nil)", text)
 	}
+	if t.Repeated || t.Kind == types.Bytes {
+		return fmt.Sprintf("%s(nil)", text)
+	}
 	if t.IsNumber() || t.Kind == types.Enum {
 		return fmt.Sprintf("%s(0)", text)
 	}
@@ -2014,7 +2014,7 @@ func (f *CastField) IsSlice() bool {
 }
 
 func (f *CastField) IsOneof() bool {
-	return f.fromType.OneofField != nil
+	return f.fromType.OneofField != nil && f.toType.OneofField != nil
 }
 
 func (f *CastField) IsStruct() bool {
@@ -2081,9 +2081,12 @@ func (f *CastField) CastOneofWrapper() *CastOneofWrapper {
 	if f.toType.OneofField == nil {
 		return nil
 	}
-	field := f.toType.OneofField
-	fieldName := util.ToPublicGoVariable(field.Name)
-	typeName := strings.TrimPrefix(f.file.messageTypeToText(field.Message), "*") + "_" + fieldName
+	return newCastOneofWrapper(f.file, f.toType.OneofField)
+}
+
+func newCastOneofWrapper(file *File, field *resolver.OneofField) *CastOneofWrapper {
+	fieldName := util.ToPublicGoField(field.Name)
+	typeName := strings.TrimPrefix(file.messageTypeToText(field.Message), "*") + "_" + fieldName
 	if field.IsConflict() {
 		typeName += "_"
 	}
@@ -2230,7 +2233,28 @@ type CastStruct struct {
 
 type CastOneofStruct struct {
 	Name   string
-	Fields []*CastStructField
+	Fields []*CastOneofStructField
+}
+
+// IsMessageCast whether all fields are messages that must be cast.
+func (s *CastOneofStruct) IsMessageCast() bool {
+	for _, field := range s.Fields {
+		if !field.RequiredCast || field.fromType.Kind != types.Message {
+			return false
+		}
+	}
+	return true
+}
+
+type CastOneofStructField struct {
+	*CastStructField
+	ToWrapper *CastOneofWrapper
+	// FromOneof name of the oneof the source field belongs to.
+	FromOneof string
+	// FromWrapper wrapper type of the source field, set if the source field is a oneof field whose presence cannot be known by its value.
+	FromWrapper string
+	// ZeroValue zero value of the source field.
+	ZeroValue string
 }
 
 type CastStructField struct {
@@ -2238,6 +2262,7 @@ type CastStructField struct {
 	FromFieldName string
 	CastName      string
 	RequiredCast  bool
+	fromType      *resolver.Type
 }
 
 func (f *CastField) ToStruct() *CastStruct {
@@ -2258,7 +2283,7 @@ func (f *CastField) ToStruct() *CastStruct {
 
 	var castOneofStructs []*CastOneofStruct
 	for _, oneof := range toMsg.Oneofs {
-		var fields []*CastStructField
+		var fields []*CastOneofStructField
 		for _, toField := range oneof.Fields {
 			if toField.Type.OneofField == nil {
 				continue
@@ -2267,10 +2292,10 @@ func (f *CastField) ToStruct() *CastStruct {
 			if field == nil {
 				continue
 			}
-			fields = append(fields, field)
+			fields = append(fields, f.toOneofStructField(field, toField.Type.OneofField))
 		}
 		castOneofStructs = append(castOneofStructs, &CastOneofStruct{
-			Name:   util.ToPublicGoVariable(oneof.Name),
+			Name:   util.ToPublicGoField(oneof.Name),
 			Fields: fields,
 		})
 	}
@@ -2288,6 +2313,27 @@ func (f *CastField) ToStruct() *CastStruct {
 	}
 }
 
+func (f *CastField) toOneofStructField(field *CastStructField, toOneof *resolver.OneofField) *CastOneofStructField {
+	ret := &CastOneofStructField{
+		CastStructField: field,
+		ToWrapper:       newCastOneofWrapper(f.file, toOneof),
+	}
+	fromType := field.fromType
+	fromOneof := fromType.OneofField
+	if fromOneof != nil && fromType.Kind != types.Message {
+		ret.FromOneof = util.ToPublicGoField(fromOneof.Oneof.Name)
+		ret.FromWrapper = f.file.oneofTypeToText(fromOneof)
+		return ret
+	}
+	switch fromType.Kind {
+	case types.Message, types.Bytes:
+		ret.ZeroValue = "nil"
+	default:
+		ret.ZeroValue = toMakeZeroValue(f.file, fromType)
+	}
+	return ret
+}
+
 func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Message) *CastStructField {
 	if toField.HasRule() && len(toField.Rule.Aliases) != 0 {
 		for _, alias := range toField.Rule.Aliases {
@@ -2299,10 +2345,11 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 			toType := toField.Type
 			requiredCast := requiredCast(fromType, toType)
 			return &CastStructField{
-				ToFieldName:   util.ToPublicGoVariable(toField.Name),
-				FromFieldName: util.ToPublicGoVariable(fromField.Name),
+				ToFieldName:   util.ToPublicGoField(toField.Name),
+				FromFieldName: util.ToPublicGoField(fromField.Name),
 				RequiredCast:  requiredCast,
 				CastName:      castFuncName(fromType, toType),
+				fromType:      fromType,
 			}
 		}
 	}
@@ -2314,14 +2361,16 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 	toType := toField.Type
 	requiredCast := requiredCast(fromType, toType)
 	return &CastStructField{
-		ToFieldName:   util.ToPublicGoVariable(toField.Name),
-		FromFieldName: util.ToPublicGoVariable(fromField.Name),
+		ToFieldName:   util.ToPublicGoField(toField.Name),
+		FromFieldName: util.ToPublicGoField(fromField.Name),
 		RequiredCast:  requiredCast,
 		CastName:      castFuncName(fromType, toType),
+		fromType:      fromType,
 	}
 }
 
 type CastOneof struct {
+	Nilable      bool
 	Name         string
 	FieldName    string
 	CastName     string
@@ -2346,6 +2395,7 @@ func (f *CastField) ToOneof() *CastOneof {
 		name = fmt.Sprintf("%s.%s", f.file.getAlias(msg.GoPackage()), name)
 	}
 	return &CastOneof{
+		Nilable:      fromType.Kind == types.Message,
 		Name:         name,
 		FieldName:    util.ToPublicGoField(toField.Name),
 		RequiredCast: requiredCast,
@@ -2482,6 +2532,25 @@ func (m *Message) autoBindFieldToReturnField(field *resolver.Field, autoBindFiel
 	}, nil
 }
 
+// autoBindCondition returns the expression to know whether the source of the autobind has the value.
+func (m *Message) autoBindCondition(autoBindField *resolver.AutoBindField, value string) string {
+	fromType := autoBindField.Field.Type
+	fieldName := util.ToPublicGoField(autoBindField.Field.Name)
+	if oneof := fromType.OneofField; oneof != nil && fromType.Kind != types.Message {
+		return fmt.Sprintf(
+			"func() bool { _, ok := %sGet%s().(%s); return ok }()",
+			strings.TrimSuffix(value, fmt.Sprintf("Get%s()", fieldName)),
+			util.ToPublicGoField(oneof.Oneof.Name),
+			m.file.oneofTypeToText(oneof),
+		)
+	}
+	switch fromType.Kind {
+	case types.Message, types.Bytes:
+		return fmt.Sprintf("%s != nil", value)
+	}
+	return fmt.Sprintf("%s != %s", value, toMakeZeroValue(m.file, fromType))
+}
+
 func (m *Message) autoBindSourceType(autoBindField *resolver.AutoBindField, candidateType *resolver.Type) *resolver.Type {
 	switch autoBindField.Field.Type.Kind {
 	case types.Message:
@@ -2608,10 +2677,15 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 			if autoBind.CastFunc != "" {
 				castValue = fmt.Sprintf("s.%s(%s)", autoBind.CastFunc, autoBind.Value)
 			}
+			value := autoBind.Value
+			if castValue == "" {
+				wrapper := newCastOneofWrapper(m.file, field.Type.OneofField)
+				value = fmt.Sprintf("&%s{%s: %s}", wrapper.Name, wrapper.FieldName, autoBind.Value)
+			}
 			caseFields = append(caseFields, &OneofField{
-				Condition: fmt.Sprintf("%s != nil", autoBind.Value),
+				Condition: m.autoBindCondition(rule.AutoBindField, autoBind.Value),
 				Name:      autoBind.Name,
-				Value:     autoBind.Value,
+				Value:     value,
 				CastValue: castValue,
 			})
 		case rule.Oneof != nil:
@@ -3532,7 +3606,11 @@ func argument(file *File, msgArg *resolver.Message, arg *resolver.Argument) []*A
 		if !isRequiredCast {
 			isRequiredCast = requiredCast(fromType, toType)
 			if isRequiredCast {
-				castFuncName := castFuncName(fromType, toType)
+				t := toType.Clone()
+				if oneofName != "" {
+					t.OneofField = nil
+				}
+				castFuncName := castFuncName(fromType, t)
 				argValue = fmt.Sprintf("s.%s(%s)", castFuncName, argValue)
 			}
 		}
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index deb92ea..a0ea43b 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -45,6 +45,30 @@ ret := &{{ .Name }}{
 	{{- end }}
 }
 {{- range $oneofFields }}
+{{- if not .IsMessageCast }}
+{{- $oneofName := .Name }}
+{{- range $idx, $field := .Fields }}
+{{- if $idx }} else {{- else }}
+{{ end }}
+{{- if .FromWrapper }}
+if _, ok := from.Get{{ .FromOneof }}().({{ .FromWrapper }}); ok {
+{{- else }}
+if from.Get{{ .FromFieldName }}() != {{ .ZeroValue }} {
+{{- end }}
+	{{- if .RequiredCast }}
+	casted, err := s.{{ .CastName }}(from.Get{{ .FromFieldName }}())
+	if err != nil {
+		return nil, err
+	}
+	ret.{{ $oneofName }} = casted
+	{{- else }}
+	ret.{{ $oneofName }} = &{{ .ToWrapper.Name }}{
+		{{ .ToWrapper.FieldName }}: from.Get{{ .FromFieldName }}(),
+	}
+	{{- end }}
+}
+{{- end }}
+{{- else }}
 switch {
 	{{ $name := .Name }}
 	{{- $localName := toLocalVariable $name }}
@@ -62,6 +86,7 @@ switch {
 	{{- end }}
 }
 {{- end }}
+{{- end }}
 
 {{- else }}
 {{- range .Fields }}
@@ -95,9 +120,11 @@ return ret, nil
 {{- end }}
 
 {{- define "castOneof" }}
+{{- if .Nilable }}
 if from == nil {
 	return nil, nil
 }
+{{- end }}
 {{ $fieldName := toLocalVariable .FieldName }}
 {{- if .RequiredCast }}
 {{ $fieldName }}, err := s.{{ .CastName }}(from)
diff --git a/generator/templates/eval.go.tmpl b/generator/templates/eval.go.tmpl
index 19e6c06..f830c6e 100644
--- a/generator/templates/eval.go.tmpl
+++ b/generator/templates/eval.go.tmpl
@@ -369,7 +369,7 @@ if v.GetCond() {
 	{{- end }}
 } else {
 	{{- if $enumSelector.FalseEnumSelector }}
-	if err := func(v *grpcfedcel.EnumSelector) {
+	if err := func(v *grpcfedcel.EnumSelector) error {
 		{{- template "setEnumValueByEnumSelector" (map "Dst" .Dst "EnumSelector" $enumSelector.FalseEnumSelector ) }}
 		return nil
 	}(v.GetFalseSelector()); err != nil {
-- 
2.43.0


From 67daeb8aec425898bcd701b12349464672590980 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:09:25 +0000
Subject: [PATCH 41/67] fix: name the log value functions of map expressions by
 their types

---
 generator/code_generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 30fc278..f286030 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1462,6 +1462,11 @@ func (s *Service) setLogValueByRepeatedType(typ *resolver.Type) {
 }
 
 func (s *Service) messageToLogValueName(msg *resolver.Message) string {
+	if msg.IsMapEntry && msg.Name == "" {
+		// the type of a map expression has no name: tell it by its key and value types.
+		name := castName(resolver.NewMessageType(msg, false))
+		return fmt.Sprintf("logvalue_%s", strings.ReplaceAll(name, "[]byte", "bytes"))
+	}
 	return fmt.Sprintf("logvalue_%s", protoFQDNToPublicGoName(msg.FQDN()))
 }
 
-- 
2.43.0


From 6cc0bb7d27cba851f7ed33dd41e246843f40b393 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:09:25 +0000
Subject: [PATCH 42/67] fix: report overflows in conversions between all kinds
 of numbers, and from enums

---
 generator/code_generator.go      | 45 ++++++++++++++++---------
 generator/templates/cast.go.tmpl | 16 +++++++--
 grpc/federation/cast.go          | 56 ++++++++++++++++++++++++++++++++
 3 files changed, 100 insertions(+), 17 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index f286030..22c2745 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2043,26 +2043,41 @@ func (f *CastField) IsMap() bool {
 		f.toType.Kind == types.Message && f.toType.Message.IsMapEntry
 }
 
-var (
-	castValidationNumberMap = map[string]bool{
-		types.Int64.ToString() + types.Int32.ToString():   true,
-		types.Int64.ToString() + types.Uint32.ToString():  true,
-		types.Int64.ToString() + types.Uint64.ToString():  true,
-		types.Int32.ToString() + types.Uint32.ToString():  true,
-		types.Int32.ToString() + types.Uint64.ToString():  true,
-		types.Uint64.ToString() + types.Int32.ToString():  true,
-		types.Uint64.ToString() + types.Int64.ToString():  true,
-		types.Uint64.ToString() + types.Uint32.ToString(): true,
-		types.Uint32.ToString() + types.Int32.ToString():  true,
-	}
-)
+// castValidationNumberMap the conversions between Go number types which may not be able to keep the value.
+var castValidationNumberMap = map[string]bool{
+	"int64" + "int32":    true,
+	"int64" + "uint32":   true,
+	"int64" + "uint64":   true,
+	"int32" + "uint32":   true,
+	"int32" + "uint64":   true,
+	"uint64" + "int32":   true,
+	"uint64" + "int64":   true,
+	"uint64" + "uint32":  true,
+	"uint32" + "int32":   true,
+	"float64" + "int32":  true,
+	"float64" + "int64":  true,
+	"float64" + "uint32": true,
+	"float64" + "uint64": true,
+	"float32" + "int32":  true,
+	"float32" + "int64":  true,
+	"float32" + "uint32": true,
+	"float32" + "uint64": true,
+}
 
 func (f *CastField) IsRequiredValidationNumber() bool {
-	return castValidationNumberMap[f.fromType.Kind.ToString()+f.toType.Kind.ToString()]
+	return castValidationNumberMap[f.validationFromType()+f.ReturnType()]
+}
+
+// validationFromType returns the Go number type of the value to be validated. An enum value is validated as int32.
+func (f *CastField) validationFromType() string {
+	if f.fromType.Kind == types.Enum {
+		return "int32"
+	}
+	return f.RequestType()
 }
 
 func (f *CastField) CastWithValidationName() string {
-	return fmt.Sprintf("%sTo%s", util.ToPublicVariable(f.RequestType()), util.ToPublicVariable(f.ReturnType()))
+	return fmt.Sprintf("%sTo%s", util.ToPublicVariable(f.validationFromType()), util.ToPublicVariable(f.ReturnType()))
 }
 
 type CastOneofWrapper struct {
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index a0ea43b..b8a61f5 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -192,12 +192,24 @@ return ret, nil
 
 {{- define "castEnumAndNumber" }}
 {{- $wrapper := .CastOneofWrapper }}
+{{- $value := "from" }}
+{{- if and .IsEnumToNumber .IsRequiredValidationNumber }}
+{{- $value = "num" }}
+num, err := grpcfed.{{ .CastWithValidationName }}(int32(from))
+if err != nil {
+	{{- if $wrapper }}
+	return nil, err
+	{{- else }}
+	return 0, err
+	{{- end }}
+}
+{{- end }}
 {{- if $wrapper }}
 return &{{ $wrapper.Name }}{
-	{{ $wrapper.FieldName }}: {{ .ReturnType }}(from),
+	{{ $wrapper.FieldName }}: {{ .ReturnType }}({{ $value }}),
 }, nil
 {{- else }}
-return {{ .ReturnType }}(from), nil
+return {{ .ReturnType }}({{ $value }}), nil
 {{- end }}
 {{- end }}
 
diff --git a/grpc/federation/cast.go b/grpc/federation/cast.go
index bf6811b..7682fc6 100644
--- a/grpc/federation/cast.go
+++ b/grpc/federation/cast.go
@@ -64,3 +64,59 @@ func Uint32ToInt32(v uint32) (int32, error) {
 	}
 	return int32(v), nil //nolint:gosec
 }
+
+func Float64ToInt32(v float64) (int32, error) {
+	if v <= -1*(1<<31)-1 || (1<<31) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float64(%v) to int32: %w", v, ErrOverflowTypeConversion)
+	}
+	return int32(v), nil
+}
+
+func Float64ToInt64(v float64) (int64, error) {
+	if v < -1*(1<<63) || (1<<63) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float64(%v) to int64: %w", v, ErrOverflowTypeConversion)
+	}
+	return int64(v), nil
+}
+
+func Float64ToUint32(v float64) (uint32, error) {
+	if v <= -1 || (1<<32) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float64(%v) to uint32: %w", v, ErrOverflowTypeConversion)
+	}
+	return uint32(v), nil
+}
+
+func Float64ToUint64(v float64) (uint64, error) {
+	if v <= -1 || (1<<64) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float64(%v) to uint64: %w", v, ErrOverflowTypeConversion)
+	}
+	return uint64(v), nil
+}
+
+func Float32ToInt32(v float32) (int32, error) {
+	if v < -1*(1<<31) || (1<<31) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float32(%v) to int32: %w", v, ErrOverflowTypeConversion)
+	}
+	return int32(v), nil
+}
+
+func Float32ToInt64(v float32) (int64, error) {
+	if v < -1*(1<<63) || (1<<63) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float32(%v) to int64: %w", v, ErrOverflowTypeConversion)
+	}
+	return int64(v), nil
+}
+
+func Float32ToUint32(v float32) (uint32, error) {
+	if v <= -1 || (1<<32) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float32(%v) to uint32: %w", v, ErrOverflowTypeConversion)
+	}
+	return uint32(v), nil
+}
+
+func Float32ToUint64(v float32) (uint64, error) {
+	if v <= -1 || (1<<64) <= v || v != v {
+		return 0, fmt.Errorf("failed to convert float32(%v) to uint64: %w", v, ErrOverflowTypeConversion)
+	}
+	return uint64(v), nil
+}
-- 
2.43.0


From 5e4db5a8f69e14c697b51c66ed6619d4cfeaca31 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:09:25 +0000
Subject: [PATCH 43/67] fix: convert between kinds of numbers when a CEL value
 is assigned

---
 grpc/federation/cel.go | 61 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 9573757..c46c9b8 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -16,6 +16,7 @@ import (
 	"github.com/google/cel-go/common/operators"
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
+	"github.com/google/cel-go/common/types/traits"
 	celext "github.com/google/cel-go/ext"
 	"github.com/google/cel-go/parser"
 	"golang.org/x/sync/singleflight"
@@ -822,11 +823,69 @@ func EvalCEL(ctx context.Context, req *EvalCELRequest) (any, error) {
 		return reflect.Zero(req.OutType).Interface(), nil
 	}
 	if req.OutType != nil {
-		return out.ConvertToNative(req.OutType)
+		converted, err := convertNumberValue(out, req.OutType)
+		if err != nil {
+			return nil, err
+		}
+		return converted.ConvertToNative(req.OutType)
 	}
 	return out.Value(), nil
 }
 
+// convertNumberValue converts a number ( or a list of numbers ) to the kind of number that the type requires.
+// cel-go doesn't convert between signed integers, unsigned integers and floating point numbers when creating a native value.
+func convertNumberValue(v ref.Val, typ reflect.Type) (ref.Val, error) {
+	if list, ok := v.(traits.Lister); ok && typ.Kind() == reflect.Slice {
+		if numberType(typ.Elem()) == nil {
+			return v, nil
+		}
+		var (
+			elems   []ref.Val
+			changed bool
+		)
+		for it := list.Iterator(); it.HasNext() == celtypes.True; {
+			elem := it.Next()
+			converted, err := convertNumberValue(elem, typ.Elem())
+			if err != nil {
+				return nil, err
+			}
+			changed = changed || converted.Type() != elem.Type()
+			elems = append(elems, converted)
+		}
+		if !changed {
+			return v, nil
+		}
+		return celtypes.NewRefValList(celtypes.DefaultTypeAdapter, elems), nil
+	}
+	switch v.(type) {
+	case celtypes.Int, celtypes.Uint, celtypes.Double:
+	default:
+		return v, nil
+	}
+	numType := numberType(typ)
+	if numType == nil || v.Type() == numType {
+		return v, nil
+	}
+	converted := v.ConvertToType(numType)
+	if err, ok := converted.(*celtypes.Err); ok {
+		return nil, err
+	}
+	return converted, nil
+}
+
+// numberType returns the CEL type of the number type. If the type isn't number, returns nil.
+func numberType(typ reflect.Type) ref.Type {
+	switch typ.Kind() {
+	case reflect.Int32, reflect.Int64:
+		return celtypes.IntType
+	case reflect.Uint32, reflect.Uint64:
+		return celtypes.UintType
+	case reflect.Float32, reflect.Float64:
+		return celtypes.DoubleType
+	}
+	return nil
+}
+
 func createCELProgram(ctx context.Context, req *EvalCELRequest) (cel.Program, error) {
 	if program := getCELProgramCache(ctx, req.CacheIndex); program != nil {
 		return program, nil
-- 
2.43.0


From abf40951e103a53a2013702dfdb2b006a39e6f55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:09:25 +0000
Subject: [PATCH 44/67] fix: keep a oneof field that is converted from an
 absent message usable

---
 generator/templates/cast.go.tmpl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index b8a61f5..2faaa35 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -23,7 +23,11 @@ return ret, nil
 
 {{- define "castMessage" }}
 if from == nil {
+	{{- with .CastOneofWrapper }}
+	return &{{ .Name }}{}, nil
+	{{- else }}
 	return nil, nil
+	{{- end }}
 }
 {{ $oneofFields := .Oneofs }}
 {{- if $oneofFields }}
-- 
2.43.0


From 0645546516c3ed05ee1c8b6a9b4e60b5464a4e2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 45/67] fix: keep the last output of a proto file until it is
 generated again

---
 generator/generator.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ee1290b..3e526cb 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -404,8 +404,6 @@ func (g *Generator) createProtoFile(ctx context.Context, path string) (*ProtoFil
 }
 
 func (g *Generator) updateProtoFile(ctx context.Context, path string) (*ProtoFileResult, error) {
-	delete(g.buildCacheMap, path)
-
 	result, err := g.createGeneratorResult(ctx, path)
 	if err != nil {
 		return nil, err
@@ -440,6 +438,8 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		ProtoPath: path,
 		Out:       g.cfg.Out,
 	}
+	// The cache is replaced only when the generation of the file by all plugins succeeded.
+	var buildCache *BuildCache
 	for _, pluginCfg := range g.cfg.Plugins {
 		pluginReq, err := newPluginRequest(path, req, pluginCfg.Opt)
 		if err != nil {
@@ -452,10 +452,8 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		if resp == nil {
 			continue
 		}
-		buildCache := g.buildCacheMap[path]
 		if buildCache == nil {
 			buildCache = &BuildCache{}
-			g.buildCacheMap[path] = buildCache
 		}
 		if pluginCfg.Plugin == "protoc-gen-grpc-federation" {
 			files, err := g.createGRPCFederationFiles(pluginReq)
@@ -468,6 +466,11 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		result.Files = append(result.Files, resp.GetFile()...)
 		buildCache.Responses = append(buildCache.Responses, resp)
 	}
+	if buildCache != nil {
+		g.buildCacheMap[path] = buildCache
+	} else {
+		delete(g.buildCacheMap, path)
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 537f83c8fbc3d2a100c0083c1cddd25f40dd35d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 46/67] fix: do not forget removed proto files when the
 generation of another one fails

---
 generator/generator.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 3e526cb..5be10e5 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -167,20 +167,16 @@ func (g *Generator) Generate(ctx context.Context, protoPath string, opts ...Opti
 		return g.watcher.Run(ctx)
 	}
 
-	results := g.otherResults(path)
+	var result *ProtoFileResult
 	if _, exists := g.buildCacheMap[path]; exists {
-		result, err := g.updateProtoFile(ctx, path)
-		if err != nil {
-			return err
-		}
-		results = append(results, result)
+		result, err = g.updateProtoFile(ctx, path)
 	} else {
-		result, err := g.createProtoFile(ctx, path)
-		if err != nil {
-			return err
-		}
-		results = append(results, result)
+		result, err = g.createProtoFile(ctx, path)
+	}
+	if err != nil {
+		return err
 	}
+	results := append(g.otherResults(path), result)
 	if err := evalAllCodeGenerationPlugin(ctx, results, g.federationGeneratorOption); err != nil {
 		return err
 	}
-- 
2.43.0


From cd538c6c939ce40a6890ca428a9b8bae23c82bad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 47/67] fix: remove generated files which a changed proto file
 does not generate any more

---
 generator/generator.go | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 5be10e5..828eaa2 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -67,6 +67,7 @@ type ProtoFileResult struct {
 	Files           []*pluginpb.CodeGeneratorResponse_File
 	FederationFiles []*resolver.File
 	Out             string
+	obsoleteFiles   []string
 }
 
 type ActionType string
@@ -113,6 +114,16 @@ func (r *ProtoFileResult) WriteFiles(ctx context.Context) error {
 			}
 		}
 	default:
+		for _, name := range r.obsoleteFiles {
+			path := filepath.Join(r.Out, name)
+			if !existsPath(path) {
+				continue
+			}
+			log.Printf("remove %s file", path)
+			if err := os.Remove(path); err != nil {
+				return err
+			}
+		}
 		for _, file := range r.Files {
 			path := filepath.Join(r.Out, file.GetName())
 			if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
@@ -462,6 +473,7 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 		result.Files = append(result.Files, resp.GetFile()...)
 		buildCache.Responses = append(buildCache.Responses, resp)
 	}
+	result.obsoleteFiles = g.obsoleteFiles(path, result.Files)
 	if buildCache != nil {
 		g.buildCacheMap[path] = buildCache
 	} else {
@@ -470,6 +482,37 @@ func (g *Generator) createGeneratorResult(ctx context.Context, path string) (*Pr
 	return result, nil
 }
 
+// obsoleteFiles returns the names of the files which were generated from the path before, and are not any more.
+func (g *Generator) obsoleteFiles(path string, files []*pluginpb.CodeGeneratorResponse_File) []string {
+	buildCache, exists := g.buildCacheMap[path]
+	if !exists {
+		return nil
+	}
+	usedNames := make(map[string]struct{})
+	for _, file := range files {
+		usedNames[file.GetName()] = struct{}{}
+	}
+	for p, other := range g.buildCacheMap {
+		if p == path {
+			continue
+		}
+		for _, resp := range other.Responses {
+			for _, file := range resp.GetFile() {
+				usedNames[file.GetName()] = struct{}{}
+			}
+		}
+	}
+	var ret []string
+	for _, resp := range buildCache.Responses {
+		for _, file := range resp.GetFile() {
+			if _, used := usedNames[file.GetName()]; !used {
+				ret = append(ret, file.GetName())
+			}
+		}
+	}
+	return ret
+}
+
 func (g *Generator) compileProto(ctx context.Context, protoPath string) (*pluginpb.CodeGeneratorRequest, error) {
 	if protoPath == "" {
 		return nil, fmt.Errorf("grpc-federation: proto file path is empty")
-- 
2.43.0


From c2202ef93936853436ee1cc1feeca661979a9de4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:29:06 +0000
Subject: [PATCH 48/67] fix: do not carry fields, methods and enum values over
 to what follows them when a position is looked up

---
 source/file.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/file.go b/source/file.go
index 63c9a48..9d4ff3a 100644
--- a/source/file.go
+++ b/source/file.go
@@ -253,7 +253,7 @@ func (f *File) findMessageByPos(ctx *findContext, pos Position, node *ast.Messag
 				return found
 			}
 		case *ast.FieldNode:
-			if found := f.findFieldByPos(ctx, pos, n); found != nil {
+			if found := f.findFieldByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		case *ast.MessageNode:
@@ -286,7 +286,7 @@ func (f *File) findEnumByPos(ctx *findContext, pos Position, node *ast.EnumNode)
 				return found
 			}
 		case *ast.EnumValueNode:
-			if found := f.findEnumValueByPos(ctx, pos, n); found != nil {
+			if found := f.findEnumValueByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
@@ -405,7 +405,7 @@ func (f *File) findOneofByPos(ctx *findContext, pos Position, node *ast.OneofNod
 	for _, elem := range node.Decls {
 		switch n := elem.(type) {
 		case *ast.FieldNode:
-			if found := f.findFieldByPos(ctx, pos, n); found != nil {
+			if found := f.findFieldByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
@@ -788,7 +788,7 @@ func (f *File) findServiceByPos(ctx *findContext, pos Position, node *ast.Servic
 				return found
 			}
 		case *ast.RPCNode:
-			if found := f.findMethodByPos(ctx, pos, n); found != nil {
+			if found := f.findMethodByPos(ctx.child(), pos, n); found != nil {
 				return found
 			}
 		}
-- 
2.43.0


From 87662b7333364e813ab87012d6192ba60deead94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:29:07 +0000
Subject: [PATCH 49/67] fix: count definitions, arguments and requests that are
 written as separate entries when a position is looked up

---
 source/file.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/source/file.go b/source/file.go
index 9d4ff3a..fdcbb90 100644
--- a/source/file.go
+++ b/source/file.go
@@ -466,6 +466,7 @@ func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.
 	switch n := node.Val.(type) {
 	case *ast.MessageLiteralNode:
 		ctx.messageOption = &MessageOption{}
+		var defs []*ast.MessageLiteralNode
 		for _, elem := range n.Elements {
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
@@ -475,11 +476,12 @@ func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.
 					return f.buildLocation(ctx)
 				}
 			case "def":
-				if found := f.findDefByPos(ctx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
-					return found
-				}
+				defs = append(defs, f.getMessageListFromNode(elem.Val)...)
 			}
 		}
+		if found := f.findDefByPos(ctx, pos, defs); found != nil {
+			return found
+		}
 	case *ast.StringLiteralNode:
 		if strings.HasSuffix(f.optionName(node), "alias") {
 			if f.containsPos(n, pos) {
@@ -582,6 +584,7 @@ func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageL
 }
 
 func (f *File) findMessageExprByPos(ctx *findContext, defIdx int, pos Position, node *ast.MessageLiteralNode) *Location {
+	var args []*ast.MessageLiteralNode
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
@@ -598,11 +601,12 @@ func (f *File) findMessageExprByPos(ctx *findContext, defIdx int, pos Position,
 				return f.buildLocation(ctx)
 			}
 		case "args":
-			if found := f.findMessageArgumentByPos(ctx, defIdx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
-				return found
-			}
+			args = append(args, f.getMessageListFromNode(elem.Val)...)
 		}
 	}
+	if found := f.findMessageArgumentByPos(ctx, defIdx, pos, args); found != nil {
+		return found
+	}
 	if f.containsPos(node, pos) {
 		return f.buildLocation(ctx)
 	}
@@ -672,6 +676,7 @@ func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Positi
 }
 
 func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, node *ast.MessageLiteralNode) *Location {
+	var requests []*ast.MessageLiteralNode
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
@@ -688,11 +693,12 @@ func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, nod
 				return f.buildLocation(ctx)
 			}
 		case "request":
-			if found := f.findMethodRequestByPos(ctx, defIdx, pos, f.getMessageListFromNode(elem.Val)); found != nil {
-				return found
-			}
+			requests = append(requests, f.getMessageListFromNode(elem.Val)...)
 		}
 	}
+	if found := f.findMethodRequestByPos(ctx, defIdx, pos, requests); found != nil {
+		return found
+	}
 	if f.containsPos(node, pos) {
 		ctx.def = &VariableDefinitionOption{
 			Idx:  defIdx,
@@ -1774,6 +1780,7 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 }
 
 func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneof) *ast.NodeInfo {
+	var defs []*ast.MessageLiteralNode
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
@@ -1786,7 +1793,7 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 		case opt.Default && fieldName == "default":
 			return f.nodeInfo(elem.Val)
 		case opt.Def != nil && fieldName == "def":
-			return f.nodeInfoByDef(f.getMessageListFromNode(elem.Val), opt.Def)
+			defs = append(defs, f.getMessageListFromNode(elem.Val)...)
 		case opt.By && fieldName == "by":
 			value, ok := elem.Val.(*ast.StringLiteralNode)
 			if !ok {
@@ -1795,6 +1802,9 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 			return f.nodeInfo(value)
 		}
 	}
+	if len(defs) != 0 {
+		return f.nodeInfoByDef(defs, opt.Def)
+	}
 	return f.nodeInfo(node)
 }
 
-- 
2.43.0


From 0409e8f516d2a0bb3aee2a4b8bb7d0420a8b5173 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:29:07 +0000
Subject: [PATCH 50/67] fix: look up the positions of strings that are written
 in several pieces

---
 source/file.go | 126 ++++++++++++++++++++++++-------------------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/source/file.go b/source/file.go
index fdcbb90..f81151d 100644
--- a/source/file.go
+++ b/source/file.go
@@ -301,7 +301,7 @@ func (f *File) findEnumOptionByPos(ctx *findContext, pos Position, node *ast.Opt
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
 			case "alias":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -313,7 +313,7 @@ func (f *File) findEnumOptionByPos(ctx *findContext, pos Position, node *ast.Opt
 				}
 			}
 		}
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if strings.HasSuffix(f.optionName(node), "alias") {
 			if f.containsPos(n, pos) {
 				ctx.enumOption = &EnumOption{Alias: true}
@@ -347,7 +347,7 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 			switch optName {
 			case "alias":
 				switch value := elem.Val.(type) {
-				case *ast.StringLiteralNode:
+				case ast.StringValueNode:
 					if f.containsPos(value, pos) {
 						ctx.enumValueOption = &EnumValueOption{
 							Alias: true,
@@ -356,7 +356,7 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 					}
 				case *ast.ArrayLiteralNode:
 					for _, elem := range value.Elements {
-						str, ok := elem.(*ast.StringLiteralNode)
+						str, ok := elem.(ast.StringValueNode)
 						if !ok {
 							continue
 						}
@@ -369,7 +369,7 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 					}
 				}
 			case "default":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -381,7 +381,7 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 				}
 			}
 		}
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if strings.HasSuffix(f.optionName(node), "alias") {
 			if f.containsPos(n, pos) {
 				ctx.enumValueOption = &EnumValueOption{Alias: true}
@@ -436,7 +436,7 @@ func (f *File) findFieldByPos(ctx *findContext, pos Position, node *ast.FieldNod
 
 func (f *File) findFieldOptionByPos(ctx *findContext, pos Position, node *ast.OptionNode) *Location {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if strings.HasSuffix(f.optionName(node), "by") {
 			if f.containsPos(n, pos) {
 				ctx.fieldOption = &FieldOption{By: true}
@@ -448,7 +448,7 @@ func (f *File) findFieldOptionByPos(ctx *findContext, pos Position, node *ast.Op
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
 			case "by":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -482,7 +482,7 @@ func (f *File) findMessageOptionByPos(ctx *findContext, pos Position, node *ast.
 		if found := f.findDefByPos(ctx, pos, defs); found != nil {
 			return found
 		}
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if strings.HasSuffix(f.optionName(node), "alias") {
 			if f.containsPos(n, pos) {
 				ctx.messageOption = &MessageOption{Alias: true}
@@ -520,7 +520,7 @@ func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageL
 			fieldName := elem.Name.Name.AsIdentifier()
 			switch fieldName {
 			case "name":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -532,7 +532,7 @@ func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageL
 					return f.buildLocation(ctx)
 				}
 			case "if":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -544,7 +544,7 @@ func (f *File) findDefByPos(ctx *findContext, pos Position, list []*ast.MessageL
 					return f.buildLocation(ctx)
 				}
 			case "by":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -589,7 +589,7 @@ func (f *File) findMessageExprByPos(ctx *findContext, defIdx int, pos Position,
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
 		case "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -619,7 +619,7 @@ func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Positi
 			fieldName := arg.Name.Name.AsIdentifier()
 			switch fieldName {
 			case "name":
-				value, ok := arg.Val.(*ast.StringLiteralNode)
+				value, ok := arg.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -636,7 +636,7 @@ func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Positi
 					return f.buildLocation(ctx)
 				}
 			case "by":
-				value, ok := arg.Val.(*ast.StringLiteralNode)
+				value, ok := arg.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -653,7 +653,7 @@ func (f *File) findMessageArgumentByPos(ctx *findContext, defIdx int, pos Positi
 					return f.buildLocation(ctx)
 				}
 			case "inline":
-				value, ok := arg.Val.(*ast.StringLiteralNode)
+				value, ok := arg.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -681,7 +681,7 @@ func (f *File) findCallExprByPos(ctx *findContext, defIdx int, pos Position, nod
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch fieldName {
 		case "method":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -715,7 +715,7 @@ func (f *File) findMethodRequestByPos(ctx *findContext, defIdx int, pos Position
 			fieldName := field.Name.Name.AsIdentifier()
 			switch fieldName {
 			case "field":
-				value, ok := field.Val.(*ast.StringLiteralNode)
+				value, ok := field.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -732,7 +732,7 @@ func (f *File) findMethodRequestByPos(ctx *findContext, defIdx int, pos Position
 					return f.buildLocation(ctx)
 				}
 			case "by":
-				value, ok := field.Val.(*ast.StringLiteralNode)
+				value, ok := field.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -749,7 +749,7 @@ func (f *File) findMethodRequestByPos(ctx *findContext, defIdx int, pos Position
 					return f.buildLocation(ctx)
 				}
 			case "if":
-				value, ok := field.Val.(*ast.StringLiteralNode)
+				value, ok := field.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -883,7 +883,7 @@ func (f *File) findMethodByPos(ctx *findContext, pos Position, node *ast.RPCNode
 
 func (f *File) findMethodOptionByPos(ctx *findContext, pos Position, node *ast.OptionNode) *Location {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if strings.HasSuffix(f.optionName(node), "timeout") {
 			if f.containsPos(n, pos) {
 				ctx.method.Option = &MethodOption{Timeout: true}
@@ -895,7 +895,7 @@ func (f *File) findMethodOptionByPos(ctx *findContext, pos Position, node *ast.O
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
 			case "timeout":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -1115,7 +1115,7 @@ func (f *File) nodeInfoByEnum(node *ast.EnumNode, enum *Enum) *ast.NodeInfo {
 
 func (f *File) nodeInfoByEnumOption(node *ast.OptionNode, opt *EnumOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
 			return f.nodeInfo(n)
 		}
@@ -1146,7 +1146,7 @@ func (f *File) nodeInfoByEnumValue(node *ast.EnumValueNode, value *EnumValue) *a
 
 func (f *File) nodeInfoByEnumValueOption(node *ast.OptionNode, opt *EnumValueOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if opt.Default && strings.HasSuffix(f.optionName(node), "default") {
 			return f.nodeInfo(n)
 		}
@@ -1182,13 +1182,13 @@ func (f *File) nodeInfoByEnumValueAttribute(list []*ast.MessageLiteralNode, attr
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case attr.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case attr.Value && fieldName == "value":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1200,7 +1200,7 @@ func (f *File) nodeInfoByEnumValueAttribute(list []*ast.MessageLiteralNode, attr
 
 func (f *File) nodeInfoByMessageOption(node *ast.OptionNode, opt *MessageOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
 			return f.nodeInfo(n)
 		}
@@ -1231,19 +1231,19 @@ func (f *File) nodeInfoByDef(list []*ast.MessageLiteralNode, def *VariableDefini
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case def.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case def.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case def.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1302,7 +1302,7 @@ func (f *File) nodeInfoByMapExpr(node *ast.MessageLiteralNode, opt *MapExprOptio
 				}
 			}
 		case opt.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1333,7 +1333,7 @@ func (f *File) nodeInfoByCallExpr(node *ast.MessageLiteralNode, call *CallExprOp
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case call.Method && fieldName == "method":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1370,19 +1370,19 @@ func (f *File) nodeInfoByMethodRequest(list []*ast.MessageLiteralNode, req *Requ
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case req.Field && fieldName == "field":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case req.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case req.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1397,7 +1397,7 @@ func (f *File) nodeInfoByRetry(node *ast.MessageLiteralNode, retry *RetryOption)
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case retry.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1457,7 +1457,7 @@ func (f *File) nodeInfoByMessageExpr(node *ast.MessageLiteralNode, msg *MessageE
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case msg.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1477,13 +1477,13 @@ func (f *File) nodeInfoByEnumExpr(node *ast.MessageLiteralNode, expr *EnumExprOp
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case expr.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case expr.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1498,7 +1498,7 @@ func (f *File) nodeInfoByValidationExpr(node *ast.MessageLiteralNode, opt *Valid
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case opt.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1527,7 +1527,7 @@ func (f *File) nodeInfoByGRPCError(list []*ast.MessageLiteralNode, opt *GRPCErro
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case opt.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1539,7 +1539,7 @@ func (f *File) nodeInfoByGRPCError(list []*ast.MessageLiteralNode, opt *GRPCErro
 			}
 			return f.nodeInfo(value)
 		case opt.IgnoreAndResponse && fieldName == "ignore_and_response":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1577,13 +1577,13 @@ func (f *File) nodeInfoByGRPCErrorDetail(list []*ast.MessageLiteralNode, detail
 		case detail.Def != nil && fieldName == "def":
 			defs = append(defs, f.getMessageListFromNode(elem.Val)...)
 		case detail.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case detail.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1643,7 +1643,7 @@ func (f *File) nodeInfoByPreconditionFailureViolations(list []*ast.MessageLitera
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		if string(fieldName) == violation.FieldName {
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1679,7 +1679,7 @@ func (f *File) nodeInfoByLocalizedMessage(list []*ast.MessageLiteralNode, msg *G
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		if string(fieldName) == msg.FieldName {
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1697,7 +1697,7 @@ func (f *File) nodeInfoByBadRequestFieldViolations(list []*ast.MessageLiteralNod
 	for _, elem := range node.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		if string(fieldName) == violation.FieldName {
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1716,13 +1716,13 @@ func (f *File) nodeInfoByArgument(list []*ast.MessageLiteralNode, arg *ArgumentO
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case arg.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case arg.Inline && fieldName == "inline":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1750,7 +1750,7 @@ func (f *File) nodeInfoByField(node ast.FieldDeclNode, field *Field) *ast.NodeIn
 
 func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if opt.By && strings.HasSuffix(f.optionName(node), "by") {
 			return f.nodeInfo(n)
 		}
@@ -1762,7 +1762,7 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 			optName := elem.Name.Name.AsIdentifier()
 			switch {
 			case opt.By && optName == "by":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
@@ -1785,7 +1785,7 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case opt.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1795,7 +1795,7 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 		case opt.Def != nil && fieldName == "def":
 			defs = append(defs, f.getMessageListFromNode(elem.Val)...)
 		case opt.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1861,7 +1861,7 @@ func (f *File) nodeInfoByEnv(node *ast.MessageLiteralNode, env *Env) *ast.NodeIn
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case env.Message && fieldName == "message":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1885,7 +1885,7 @@ func (f *File) nodeInfoByEnvVar(list []*ast.MessageLiteralNode, v *EnvVar) *ast.
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case v.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1904,19 +1904,19 @@ func (f *File) nodeInfoByServiceVariable(list []*ast.MessageLiteralNode, svcVar
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case svcVar.Name && fieldName == "name":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case svcVar.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case svcVar.By && fieldName == "by":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1955,13 +1955,13 @@ func (f *File) nodeInfoByServiceVariableValidationExpr(node *ast.MessageLiteralN
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
 		case expr.If && fieldName == "if":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
 			return f.nodeInfo(value)
 		case expr.Message && fieldName == "message":
-			value, ok := elem.Val.(*ast.StringLiteralNode)
+			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
 				return nil
 			}
@@ -1988,7 +1988,7 @@ func (f *File) nodeInfoByMethod(node *ast.RPCNode, mtd *Method) *ast.NodeInfo {
 
 func (f *File) nodeInfoByMethodOption(node *ast.OptionNode, opt *MethodOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
-	case *ast.StringLiteralNode:
+	case ast.StringValueNode:
 		if opt.Timeout && strings.HasSuffix(f.optionName(node), "timeout") {
 			return f.nodeInfo(n)
 		}
@@ -2000,13 +2000,13 @@ func (f *File) nodeInfoByMethodOption(node *ast.OptionNode, opt *MethodOption) *
 			optName := elem.Name.Name.AsIdentifier()
 			switch {
 			case opt.Timeout && optName == "timeout":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
 				return f.nodeInfo(value)
 			case opt.Response && optName == "response":
-				value, ok := elem.Val.(*ast.StringLiteralNode)
+				value, ok := elem.Val.(ast.StringValueNode)
 				if !ok {
 					return nil
 				}
-- 
2.43.0


From 903df60c915fea902a850171f6ea01f47bd57bbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:29:31 +0000
Subject: [PATCH 51/67] fix: look for an option's position in all options of an
 element, not only in the first

---
 source/file.go | 102 +++++++++++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/source/file.go b/source/file.go
index f81151d..dd5747b 100644
--- a/source/file.go
+++ b/source/file.go
@@ -972,6 +972,38 @@ func (f *File) optionValuesByImportRule(node *ast.OptionNode) []ast.ValueNode {
 	return nil
 }
 
+// nodeInfoByOptions returns the information found in the options of the specified name.
+// An option whose value doesn't have the element is passed over if another one has it.
+func (f *File) nodeInfoByOptions(opts []*ast.OptionNode, name string, find func(*ast.OptionNode) *ast.NodeInfo) *ast.NodeInfo {
+	var whole *ast.NodeInfo
+	for _, opt := range opts {
+		if !f.matchOption(f.optionName(opt), name) {
+			continue
+		}
+		info := find(opt)
+		if info == nil {
+			continue
+		}
+		if optInfo := f.nodeInfo(opt); info.Start() != optInfo.Start() || info.End() != optInfo.End() {
+			return info
+		}
+		if whole == nil {
+			whole = info
+		}
+	}
+	return whole
+}
+
+func optionNodes[T ast.Node](decls []T) []*ast.OptionNode {
+	var opts []*ast.OptionNode
+	for _, decl := range decls {
+		if opt, ok := ast.Node(decl).(*ast.OptionNode); ok {
+			opts = append(opts, opt)
+		}
+	}
+	return opts
+}
+
 // NodeInfoByLocation returns information about the node at the position specified by location in the AST of the Protocol Buffers.
 func (f *File) NodeInfoByLocation(loc *Location) *ast.NodeInfo {
 	if loc.FileName == "" {
@@ -1025,15 +1057,15 @@ func (f *File) nodeInfoByMessage(node *ast.MessageNode, msg *Message) *ast.NodeI
 	if string(node.Name.AsIdentifier()) != msg.Name {
 		return nil
 	}
+	if msg.Option != nil {
+		if info := f.nodeInfoByOptions(optionNodes(node.MessageBody.Decls), msgOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
+			return f.nodeInfoByMessageOption(opt, msg.Option)
+		}); info != nil {
+			return info
+		}
+	}
 	for _, decl := range node.MessageBody.Decls {
 		switch n := decl.(type) {
-		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), msgOptionName) {
-				continue
-			}
-			if msg.Option != nil {
-				return f.nodeInfoByMessageOption(n, msg.Option)
-			}
 		case *ast.FieldNode:
 			if msg.Field != nil {
 				if string(n.Name.AsIdentifier()) != msg.Field.Name {
@@ -1092,15 +1124,15 @@ func (f *File) nodeInfoByOneof(node *ast.OneofNode, msg *Message) *ast.NodeInfo
 }
 
 func (f *File) nodeInfoByEnum(node *ast.EnumNode, enum *Enum) *ast.NodeInfo {
+	if enum.Option != nil {
+		if info := f.nodeInfoByOptions(optionNodes(node.Decls), enumOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
+			return f.nodeInfoByEnumOption(opt, enum.Option)
+		}); info != nil {
+			return info
+		}
+	}
 	for _, decl := range node.Decls {
 		switch n := decl.(type) {
-		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), enumOptionName) {
-				continue
-			}
-			if enum.Option != nil {
-				return f.nodeInfoByEnumOption(n, enum.Option)
-			}
 		case *ast.EnumValueNode:
 			if enum.Value != nil {
 				if string(n.Name.AsIdentifier()) != enum.Value.Value {
@@ -1134,11 +1166,10 @@ func (f *File) nodeInfoByEnumOption(node *ast.OptionNode, opt *EnumOption) *ast.
 func (f *File) nodeInfoByEnumValue(node *ast.EnumValueNode, value *EnumValue) *ast.NodeInfo {
 	opts := node.Options
 	if value.Option != nil && opts != nil {
-		for _, opt := range opts.Options {
-			if !f.matchOption(f.optionName(opt), enumValueOptionName) {
-				continue
-			}
+		if info := f.nodeInfoByOptions(opts.Options, enumValueOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
 			return f.nodeInfoByEnumValueOption(opt, value.Option)
+		}); info != nil {
+			return info
 		}
 	}
 	return f.nodeInfo(node)
@@ -1735,11 +1766,10 @@ func (f *File) nodeInfoByArgument(list []*ast.MessageLiteralNode, arg *ArgumentO
 func (f *File) nodeInfoByField(node ast.FieldDeclNode, field *Field) *ast.NodeInfo {
 	opts := node.GetOptions()
 	if field.Option != nil && opts != nil {
-		for _, opt := range opts.Options {
-			if !f.matchOption(f.optionName(opt), fieldOptionName) {
-				continue
-			}
+		if info := f.nodeInfoByOptions(opts.Options, fieldOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
 			return f.nodeInfoByFieldOption(opt, field.Option)
+		}); info != nil {
+			return info
 		}
 	}
 	if field.Type && node.FieldType() != nil {
@@ -1809,15 +1839,15 @@ func (f *File) nodeInfoByFieldOneof(node *ast.MessageLiteralNode, opt *FieldOneo
 }
 
 func (f *File) nodeInfoByService(node *ast.ServiceNode, svc *Service) *ast.NodeInfo {
+	if svc.Option != nil {
+		if info := f.nodeInfoByOptions(optionNodes(node.Decls), serviceOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
+			return f.nodeInfoByServiceOption(opt, svc.Option)
+		}); info != nil {
+			return info
+		}
+	}
 	for _, decl := range node.Decls {
 		switch n := decl.(type) {
-		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), serviceOptionName) {
-				continue
-			}
-			if svc.Option != nil {
-				return f.nodeInfoByServiceOption(n, svc.Option)
-			}
 		case *ast.RPCNode:
 			if svc.Method == nil {
 				continue
@@ -1972,15 +2002,11 @@ func (f *File) nodeInfoByServiceVariableValidationExpr(node *ast.MessageLiteralN
 }
 
 func (f *File) nodeInfoByMethod(node *ast.RPCNode, mtd *Method) *ast.NodeInfo {
-	for _, decl := range node.Decls {
-		switch n := decl.(type) {
-		case *ast.OptionNode:
-			if !f.matchOption(f.optionName(n), methodOptionName) {
-				continue
-			}
-			if mtd.Option != nil {
-				return f.nodeInfoByMethodOption(n, mtd.Option)
-			}
+	if mtd.Option != nil {
+		if info := f.nodeInfoByOptions(optionNodes(node.Decls), methodOptionName, func(opt *ast.OptionNode) *ast.NodeInfo {
+			return f.nodeInfoByMethodOption(opt, mtd.Option)
+		}); info != nil {
+			return info
 		}
 	}
 	return nil
-- 
2.43.0


From 85334ad6c6fabb7e4e3820d47622486d5706d9f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:30:11 +0000
Subject: [PATCH 52/67] fix: look up positions in top-level enums, alias lists
 and default values of enums

---
 source/file.go | 46 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/source/file.go b/source/file.go
index dd5747b..f6c41d4 100644
--- a/source/file.go
+++ b/source/file.go
@@ -212,6 +212,10 @@ func (f *File) FindLocationByPos(pos Position) *Location {
 			if found := f.findMessageByPos(ctx, pos, n, false); found != nil {
 				return found
 			}
+		case *ast.EnumNode:
+			if found := f.findEnumByPos(ctx, pos, n); found != nil {
+				return found
+			}
 		case *ast.ServiceNode:
 			if found := f.findServiceByPos(ctx, pos, n); found != nil {
 				return found
@@ -301,11 +305,7 @@ func (f *File) findEnumOptionByPos(ctx *findContext, pos Position, node *ast.Opt
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
 			case "alias":
-				value, ok := elem.Val.(ast.StringValueNode)
-				if !ok {
-					return nil
-				}
-				if f.containsPos(value, pos) {
+				if f.containsPos(elem.Val, pos) {
 					ctx.enumOption = &EnumOption{
 						Alias: true,
 					}
@@ -346,34 +346,14 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 			optName := elem.Name.Name.AsIdentifier()
 			switch optName {
 			case "alias":
-				switch value := elem.Val.(type) {
-				case ast.StringValueNode:
-					if f.containsPos(value, pos) {
-						ctx.enumValueOption = &EnumValueOption{
-							Alias: true,
-						}
-						return f.buildLocation(ctx)
-					}
-				case *ast.ArrayLiteralNode:
-					for _, elem := range value.Elements {
-						str, ok := elem.(ast.StringValueNode)
-						if !ok {
-							continue
-						}
-						if f.containsPos(str, pos) {
-							ctx.enumValueOption = &EnumValueOption{
-								Alias: true,
-							}
-							return f.buildLocation(ctx)
-						}
+				if f.containsPos(elem.Val, pos) {
+					ctx.enumValueOption = &EnumValueOption{
+						Alias: true,
 					}
+					return f.buildLocation(ctx)
 				}
 			case "default":
-				value, ok := elem.Val.(ast.StringValueNode)
-				if !ok {
-					return nil
-				}
-				if f.containsPos(value, pos) {
+				if f.containsPos(elem.Val, pos) {
 					ctx.enumValueOption = &EnumValueOption{
 						Default: true,
 					}
@@ -388,6 +368,7 @@ func (f *File) findEnumValueOptionByPos(ctx *findContext, pos Position, node *as
 				return f.buildLocation(ctx)
 			}
 		}
+	case *ast.IdentNode:
 		if strings.HasSuffix(f.optionName(node), "default") {
 			if f.containsPos(n, pos) {
 				ctx.enumValueOption = &EnumValueOption{Default: true}
@@ -1178,10 +1159,11 @@ func (f *File) nodeInfoByEnumValue(node *ast.EnumValueNode, value *EnumValue) *a
 func (f *File) nodeInfoByEnumValueOption(node *ast.OptionNode, opt *EnumValueOption) *ast.NodeInfo {
 	switch n := node.Val.(type) {
 	case ast.StringValueNode:
-		if opt.Default && strings.HasSuffix(f.optionName(node), "default") {
+		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
 			return f.nodeInfo(n)
 		}
-		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
+	case *ast.IdentNode:
+		if opt.Default && strings.HasSuffix(f.optionName(node), "default") {
 			return f.nodeInfo(n)
 		}
 	case *ast.MessageLiteralNode:
-- 
2.43.0


From 9f10380b7eb17e1ea9a6e5a53463fde7024b9dda Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:30:12 +0000
Subject: [PATCH 53/67] fix: give the positions of all locations that errors
 are reported at

---
 resolver/resolver.go |  2 +-
 source/file.go       | 65 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 9b6ab79..5c802fb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1200,7 +1200,7 @@ func (r *Resolver) resolveMessage(ctx *context, pkg *Package, name string, build
 		Desc: msgDef,
 	}
 	for _, nestedMsgDef := range msgDef.GetNestedType() {
-		nestedMsg := r.resolveMessage(ctx, pkg, fmt.Sprintf("%s.%s", name, nestedMsgDef.GetName()), builder.WithMessage(name))
+		nestedMsg := r.resolveMessage(ctx, pkg, fmt.Sprintf("%s.%s", name, nestedMsgDef.GetName()), builder.WithMessage(nestedMsgDef.GetName()))
 		if nestedMsg == nil {
 			continue
 		}
diff --git a/source/file.go b/source/file.go
index f6c41d4..e1374ec 100644
--- a/source/file.go
+++ b/source/file.go
@@ -1101,6 +1101,9 @@ func (f *File) nodeInfoByOneof(node *ast.OneofNode, msg *Message) *ast.NodeInfo
 			}
 		}
 	}
+	if msg.Oneof != nil && string(node.Name.AsIdentifier()) == msg.Oneof.Name {
+		return f.nodeInfo(node)
+	}
 	return nil
 }
 
@@ -1516,7 +1519,7 @@ func (f *File) nodeInfoByValidationExpr(node *ast.MessageLiteralNode, opt *Valid
 				return nil
 			}
 			return f.nodeInfo(value)
-		case fieldName == "error":
+		case opt.Error != nil && fieldName == "error":
 			value, ok := elem.Val.(*ast.MessageLiteralNode)
 			if !ok {
 				return nil
@@ -1545,6 +1548,10 @@ func (f *File) nodeInfoByGRPCError(list []*ast.MessageLiteralNode, opt *GRPCErro
 				return nil
 			}
 			return f.nodeInfo(value)
+		case opt.Code && fieldName == "code":
+			return f.nodeInfo(elem.Val)
+		case opt.Message && fieldName == "message":
+			return f.nodeInfo(elem.Val)
 		case opt.Ignore && fieldName == "ignore":
 			value, ok := elem.Val.(*ast.IdentNode)
 			if !ok {
@@ -1596,11 +1603,7 @@ func (f *File) nodeInfoByGRPCErrorDetail(list []*ast.MessageLiteralNode, detail
 			}
 			return f.nodeInfo(value)
 		case detail.By && fieldName == "by":
-			value, ok := elem.Val.(ast.StringValueNode)
-			if !ok {
-				return nil
-			}
-			return f.nodeInfo(value)
+			return f.nodeInfo(elem.Val)
 		case detail.Message != nil && fieldName == "message":
 			messages = append(messages, f.getMessageListFromNode(elem.Val)...)
 		case detail.PreconditionFailure != nil && fieldName == "precondition_failure":
@@ -1615,7 +1618,14 @@ func (f *File) nodeInfoByGRPCErrorDetail(list []*ast.MessageLiteralNode, detail
 		return f.nodeInfoByDef(defs, detail.Def)
 	}
 	if len(messages) != 0 {
-		return f.nodeInfoByDef(messages, detail.Message)
+		if detail.Message.Idx >= len(messages) {
+			return nil
+		}
+		msg := messages[detail.Message.Idx]
+		if detail.Message.Message != nil {
+			return f.nodeInfoByMessageExpr(msg, detail.Message.Message)
+		}
+		return f.nodeInfo(msg)
 	}
 	if len(preconditionFailures) != 0 {
 		return f.nodeInfoByPreconditionFailure(preconditionFailures, detail.PreconditionFailure)
@@ -1728,6 +1738,12 @@ func (f *File) nodeInfoByArgument(list []*ast.MessageLiteralNode, arg *ArgumentO
 	for _, elem := range literal.Elements {
 		fieldName := elem.Name.Name.AsIdentifier()
 		switch {
+		case arg.Name && fieldName == "name":
+			value, ok := elem.Val.(ast.StringValueNode)
+			if !ok {
+				return nil
+			}
+			return f.nodeInfo(value)
 		case arg.By && fieldName == "by":
 			value, ok := elem.Val.(ast.StringValueNode)
 			if !ok {
@@ -1766,6 +1782,9 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 		if opt.By && strings.HasSuffix(f.optionName(node), "by") {
 			return f.nodeInfo(n)
 		}
+		if opt.Alias && strings.HasSuffix(f.optionName(node), "alias") {
+			return f.nodeInfo(n)
+		}
 	case *ast.MessageLiteralNode:
 		if opt.Oneof != nil && strings.HasSuffix(f.optionName(node), "oneof") {
 			return f.nodeInfoByFieldOneof(n, opt.Oneof)
@@ -1779,6 +1798,8 @@ func (f *File) nodeInfoByFieldOption(node *ast.OptionNode, opt *FieldOption) *as
 					return nil
 				}
 				return f.nodeInfo(value)
+			case opt.Alias && optName == "alias":
+				return f.nodeInfo(elem.Val)
 			case opt.Oneof != nil && optName == "oneof":
 				value, ok := elem.Val.(*ast.MessageLiteralNode)
 				if !ok {
@@ -1902,6 +1923,28 @@ func (f *File) nodeInfoByEnvVar(list []*ast.MessageLiteralNode, v *EnvVar) *ast.
 				return nil
 			}
 			return f.nodeInfo(value)
+		case v.Type && fieldName == "type":
+			return f.nodeInfo(elem.Val)
+		case v.Option != nil && fieldName == "option":
+			value, ok := elem.Val.(*ast.MessageLiteralNode)
+			if !ok {
+				return nil
+			}
+			return f.nodeInfoByEnvVarOption(value, v.Option)
+		}
+	}
+	return f.nodeInfo(node)
+}
+
+func (f *File) nodeInfoByEnvVarOption(node *ast.MessageLiteralNode, opt *EnvVarOption) *ast.NodeInfo {
+	for _, elem := range node.Elements {
+		fieldName := elem.Name.Name.AsIdentifier()
+		switch {
+		case opt.Alternate && fieldName == "alternate",
+			opt.Default && fieldName == "default",
+			opt.Required && fieldName == "required",
+			opt.Ignored && fieldName == "ignored":
+			return f.nodeInfo(elem.Val)
 		}
 	}
 	return f.nodeInfo(node)
@@ -1991,7 +2034,13 @@ func (f *File) nodeInfoByMethod(node *ast.RPCNode, mtd *Method) *ast.NodeInfo {
 			return info
 		}
 	}
-	return nil
+	if mtd.Request {
+		return f.nodeInfo(node.Input)
+	}
+	if mtd.Response {
+		return f.nodeInfo(node.Output)
+	}
+	return f.nodeInfo(node)
 }
 
 func (f *File) nodeInfoByMethodOption(node *ast.OptionNode, opt *MethodOption) *ast.NodeInfo {
-- 
2.43.0


From 40546239fcac49306ceff78c2da5d69049085c50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:37:08 +0000
Subject: [PATCH 54/67] fix: keep the name, type and option in the location of
 an environment variable

---
 source/location_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/location_builder.go b/source/location_builder.go
index ca89530..69f7c45 100644
--- a/source/location_builder.go
+++ b/source/location_builder.go
@@ -417,7 +417,7 @@ func (b *EnvBuilder) WithVar(idx int) *EnvVarBuilder {
 	return &EnvVarBuilder{
 		root: root,
 		envVar: func(loc *Location) *EnvVar {
-			return b.env(root).Var
+			return b.env(loc).Var
 		},
 	}
 }
-- 
2.43.0


From f76a2a978cf5a0a16eb8700fa1e8f954e28a7939 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:44:34 +0000
Subject: [PATCH 55/67] fix: keep service variables which have a condition

---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 5c802fb..47b2ede 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2268,8 +2268,8 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 						builder.WithIf().Location(),
 					),
 				)
+				return nil
 			}
-			return nil
 		}
 	}
 
-- 
2.43.0


From 048da8c749e72911cd91732b8761805db7c0a70a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:44:37 +0000
Subject: [PATCH 56/67] fix: accept more than one validation in a service's
 variables

---
 generator/code_generator.go | 28 +++++++++++++++++-----------
 resolver/resolver.go        |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 22c2745..06af282 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -375,7 +375,21 @@ func (s *Service) ServiceVariables() *ServiceVariables {
 		return nil
 	}
 	svcVars := make([]*ServiceVariable, 0, len(s.Rule.Vars))
+	defs := make([]*VariableDefinition, 0, len(s.Rule.Vars))
+	var existsUnnamed bool
 	for _, v := range s.Rule.Vars {
+		defs = append(defs, &VariableDefinition{
+			VariableDefinition: v.ToVariableDefinition(),
+			Service:            s,
+			file:               s.file,
+		})
+		// validations have no name, so only one of them can be a field of the variable's struct.
+		if v.Name == "" {
+			if existsUnnamed {
+				continue
+			}
+			existsUnnamed = true
+		}
 		svcVars = append(svcVars, &ServiceVariable{
 			ServiceVariable: v,
 			file:            s.file,
@@ -383,7 +397,7 @@ func (s *Service) ServiceVariables() *ServiceVariables {
 	}
 	return &ServiceVariables{
 		Vars: svcVars,
-		svc:  s,
+		defs: defs,
 	}
 }
 
@@ -474,19 +488,11 @@ func (v *EnvVar) Tag() string {
 
 type ServiceVariables struct {
 	Vars []*ServiceVariable
-	svc  *Service
+	defs []*VariableDefinition
 }
 
 func (v *ServiceVariables) Defs() []*VariableDefinition {
-	ret := make([]*VariableDefinition, 0, len(v.Vars))
-	for _, svcVar := range v.Vars {
-		ret = append(ret, &VariableDefinition{
-			VariableDefinition: svcVar.ToVariableDefinition(),
-			Service:            v.svc,
-			file:               v.svc.file,
-		})
-	}
-	return ret
+	return v.defs
 }
 
 type ServiceVariable struct {
diff --git a/resolver/resolver.go b/resolver/resolver.go
index 47b2ede..19e0ec9 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2239,7 +2239,7 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 		)
 		return nil
 	}
-	if _, exists := nameMap[name]; exists {
+	if _, exists := nameMap[name]; exists && name != "" {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf("found duplicated variable name %q", name),
-- 
2.43.0


From 1418297506190e00ea98712a27e3bd5248d338a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:44:47 +0000
Subject: [PATCH 57/67] fix: report a service variable without an expression
 instead of panicking

---
 resolver/resolver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 19e0ec9..9c9a53d 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2274,6 +2274,15 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 	}
 
 	expr := r.resolveServiceVariableExpr(ctx, def, builder)
+	if expr == nil {
+		ctx.addError(
+			ErrWithLocation(
+				"variable expression is not found",
+				builder.Location(),
+			),
+		)
+		return nil
+	}
 	switch {
 	case expr.By != nil:
 		if err := r.resolveCELValue(ctx, env, expr.By); err != nil {
-- 
2.43.0


From 3991ef00400e6e2def13417ccd18c413f2388967 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 58/67] fix: validate a service variable only if its condition
 holds

---
 generator/templates/server.go.tmpl | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index 72882ac..abe2b0d 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -424,6 +424,13 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 
 	{{ range $svcVars.Defs }}
 	{{- if .IsValidation }}
+	{{- if .UseIf }}
+	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
+		Value: value,
+		Expr: {{ .If | goString }},
+		CacheIndex: {{ .CELCacheIndex }},
+		Body: func(value *localValueType) error {
+	{{- end }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
 		Expr: {{ .Expr.Validation.Error.If.Expr | goString }},
@@ -443,6 +450,13 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 	}); err != nil {
 		return err
 	}
+	{{- if .UseIf }}
+			return nil
+		},
+	}); err != nil {
+		return err
+	}
+	{{- end }}
 	{{- else }}
 	{{- template "declDef" . }}
 	if err := def_{{ .Key }}(ctx); err != nil {
-- 
2.43.0


From cab581d94fd12f8a131b64737c7cea9fdd874dae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:55:00 +0000
Subject: [PATCH 59/67] fix: accept fields without options in a message of
 environment variables

---
 resolver/resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 9c9a53d..d1b1240 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1373,7 +1373,8 @@ func (r *Resolver) resolveMessageRules(ctx *context, msgs []*Message, builder fu
 func (r *Resolver) resolveFieldRules(ctx *context, msg *Message, builder *source.MessageBuilder) {
 	for _, field := range msg.Fields {
 		field.Rule = r.resolveFieldRule(ctx, msg, field, r.fieldToRuleMap[field], builder.WithField(field.Name))
-		if msg.Rule == nil && field.Rule != nil {
+		// the env option does not bind a value to the field, so that it does not make the message a federation message.
+		if msg.Rule == nil && field.Rule != nil && field.Rule.Env == nil {
 			msg.Rule = &MessageRule{DefSet: &VariableDefinitionSet{}}
 		}
 	}
-- 
2.43.0


From 33648cd789f303d89a908cda05f458c06aa82eb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:56:47 +0000
Subject: [PATCH 60/67] fix: resolve the arguments of messages which only
 service variables use

---
 resolver/resolver.go | 65 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d1b1240..c1076ed 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -3724,6 +3724,13 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 		// The message argument of the response message is the request message.
 		// Therefore, the request message is retrieved from the response message.
 		if r.lookupRequestMessageFromResponseMessage(rootMsg) == nil {
+			// The message which is used only in the service variables has the arguments specified by them.
+			if fields, exists := r.messageArgumentFieldsFromServiceVariables(ctx, rootMsg); exists {
+				msgArg.Fields = fields
+				r.cachedMessageMap[msgArg.FQDN()] = msgArg
+				r.resolveMessageArgumentRecursive(ctx, root, svcMsgSet)
+				continue
+			}
 			// A non-response message may also become a root message.
 			// In such a case, the message argument field does not exist.
 			// However, since it is necessary to resolve the CEL reference, needs to call recursive message argument resolver.
@@ -3757,6 +3764,64 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	}
 }
 
+// messageArgumentFieldsFromServiceVariables returns the arguments which are specified by the service variables for the message.
+// If there is no service variable which uses the message, it returns false.
+func (r *Resolver) messageArgumentFieldsFromServiceVariables(ctx *context, msg *Message) ([]*Field, bool) {
+	var (
+		fields []*Field
+		exists bool
+	)
+	fieldMap := make(map[string]*Field)
+	for _, fqdn := range slices.Sorted(maps.Keys(r.cachedServiceMap)) {
+		svc := r.cachedServiceMap[fqdn]
+		if !svc.HasMessageInVariables(msg) {
+			continue
+		}
+		exists = true
+		for idx, svcVar := range svc.Rule.Vars {
+			for _, msgExpr := range svcVar.MessageExprs() {
+				if msgExpr.Message != msg {
+					continue
+				}
+				for _, arg := range msgExpr.Args {
+					if arg.Value == nil || arg.Value.Type() == nil {
+						continue
+					}
+					argFields := []*Field{{Name: arg.Name, Type: arg.Value.Type()}}
+					if arg.Value.CEL != nil && arg.Value.Inline {
+						argFields = nil
+						if typ := arg.Value.Type(); typ.Message != nil {
+							argFields = typ.Message.Fields
+						}
+					}
+					for _, argField := range argFields {
+						if found, exists := fieldMap[argField.Name]; exists {
+							if r.isDifferentArgumentType(found.Type, argField.Type) {
+								ctx.addError(
+									ErrWithLocation(
+										fmt.Sprintf(
+											"%q argument name is declared with a different type kind. found %q and %q type",
+											argField.Name,
+											found.Type.Kind.ToString(),
+											argField.Type.Kind.ToString(),
+										),
+										source.NewServiceBuilder(svc.File.Name, svc.Name).WithOption().WithVar(idx).Location(),
+									),
+								)
+							}
+							continue
+						}
+						field := &Field{Name: argField.Name, Type: argField.Type}
+						fieldMap[field.Name] = field
+						fields = append(fields, field)
+					}
+				}
+			}
+		}
+	}
+	return fields, exists
+}
+
 func (r *Resolver) resolveMessageArgumentRecursive(
 	ctx *context,
 	node *AllMessageDependencyGraphNode,
-- 
2.43.0


From 276015de2eec0508855c38d3a45ade2fd5db755d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:57:17 +0000
Subject: [PATCH 61/67] fix: name the entries of map environment variables as
 protocol buffers requires

---
 resolver/resolver.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index c1076ed..bb6f0da 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -21,8 +21,6 @@ import (
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	celext "github.com/google/cel-go/ext"
-	"golang.org/x/text/cases"
-	"golang.org/x/text/language"
 	"google.golang.org/genproto/googleapis/rpc/errdetails"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/reflect/protoreflect"
@@ -2088,7 +2086,7 @@ func (r *Resolver) resolveEnvVar(ctx *context, def *federation.EnvVar, builder *
 	}
 	if typ.Message != nil && typ.Message.IsMapEntry {
 		mp := typ.Message
-		mp.Name = cases.Title(language.Und).String(name) + "Entry"
+		mp.Name = mapEntryName(name)
 		file := ctx.file()
 		copied := *file
 		copied.Package = &Package{Name: file.PrivatePackageName()}
@@ -2102,6 +2100,24 @@ func (r *Resolver) resolveEnvVar(ctx *context, def *federation.EnvVar, builder *
 	}
 }
 
+// mapEntryName returns the name which the message of the entries of the map field must have.
+func mapEntryName(fieldName string) string {
+	var b strings.Builder
+	upper := true
+	for _, c := range fieldName {
+		switch {
+		case c == '_':
+			upper = true
+		case upper:
+			b.WriteRune(unicode.ToUpper(c))
+			upper = false
+		default:
+			b.WriteRune(c)
+		}
+	}
+	return b.String() + "Entry"
+}
+
 func (r *Resolver) resolveEnvVarWithField(field *Field) *EnvVar {
 	var opt *EnvVarOption
 	if field.Rule != nil {
-- 
2.43.0


From 99b01846ac97766d27b2facc061c06a1212679b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:00:20 +0000
Subject: [PATCH 62/67] fix: declare the methods which only the messages of
 service variables depend on

---
 generator/code_generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 06af282..8e81a24 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1610,6 +1610,18 @@ func (s *Service) DependentMethods() []*DependentMethod {
 			methodMap[depMethod.Name] = depMethod
 		}
 	}
+	if s.Service.Rule != nil {
+		for _, svcVar := range s.Service.Rule.Vars {
+			for _, msgExpr := range svcVar.MessageExprs() {
+				if msgExpr.Message == nil {
+					continue
+				}
+				for _, depMethod := range s.dependentMethods(msgExpr.Message) {
+					methodMap[depMethod.Name] = depMethod
+				}
+			}
+		}
+	}
 	depMethods := make([]*DependentMethod, 0, len(methodMap))
 	for _, depMethod := range methodMap {
 		depMethods = append(depMethods, depMethod)
-- 
2.43.0


From 4542a4a85e01c6ee671459f05baeba0bdee4b250 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:05:49 +0000
Subject: [PATCH 63/67] fix: report an empty message without the option when it
 is used as a dependency

---
 resolver/graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 50f8f01..f45073b 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -173,7 +173,7 @@ func (b *AllMessageDependencyGraphNodeReferenceBuilder) buildMessage(ctx *contex
 			)
 			return
 		}
-		if !depMsg.HasRuleEveryFields() {
+		if depMsg.Rule == nil || !depMsg.HasRuleEveryFields() {
 			ctx.addError(
 				ErrWithLocation(
 					fmt.Sprintf(`"%s.%s" message does not specify "grpc.federation.message" option`, depMsg.Package().Name, depMsg.Name),
@@ -213,7 +213,7 @@ func (b *AllMessageDependencyGraphNodeReferenceBuilder) buildMap(ctx *context, e
 			)
 			return
 		}
-		if !depMsg.HasRuleEveryFields() {
+		if depMsg.Rule == nil || !depMsg.HasRuleEveryFields() {
 			ctx.addError(
 				ErrWithLocation(
 					fmt.Sprintf(`"%s.%s" message does not specify "grpc.federation.message" option`, depMsg.Package().Name, depMsg.Name),
-- 
2.43.0


From 20d572f9bb4b6c6f46d5a1873ebfd93f52c5c9c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:06:54 +0000
Subject: [PATCH 64/67] fix: report messages of service variables which don't
 exist or don't have the option

---
 resolver/resolver.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index bb6f0da..73618b8 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2650,7 +2650,7 @@ func (r *Resolver) resolveMessageExpr(ctx *context, def *federation.MessageExpr,
 			),
 		)
 	}
-	if ctx.msg == msg {
+	if msg != nil && ctx.msg == msg {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf(`recursive definition: %q is own message name`, msg.Name),
@@ -3690,6 +3690,8 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 		return
 	}
 
+	r.validateServiceVariableMessages(ctx)
+
 	// Need to prepare the svcMsgSet first to build env messages.
 	// This is necessary because we need to know which messages are used by which services when creating the messages.
 	svcMsgSet := make(map[*Service]map[*Message]struct{})
@@ -3780,6 +3782,30 @@ func (r *Resolver) resolveMessageArgument(ctx *context, files []*File) {
 	}
 }
 
+// validateServiceVariableMessages reports the messages which service variables use although they don't have the message option.
+func (r *Resolver) validateServiceVariableMessages(ctx *context) {
+	for _, fqdn := range slices.Sorted(maps.Keys(r.cachedServiceMap)) {
+		svc := r.cachedServiceMap[fqdn]
+		if svc.Rule == nil {
+			continue
+		}
+		for idx, svcVar := range svc.Rule.Vars {
+			for _, msgExpr := range svcVar.MessageExprs() {
+				msg := msgExpr.Message
+				if msg == nil || msg.Rule != nil {
+					continue
+				}
+				ctx.addError(
+					ErrWithLocation(
+						fmt.Sprintf(`"%s.%s" message does not specify "grpc.federation.message" option`, msg.Package().Name, msg.Name),
+						source.NewServiceBuilder(svc.File.Name, svc.Name).WithOption().WithVar(idx).Location(),
+					),
+				)
+			}
+		}
+	}
+}
+
 // messageArgumentFieldsFromServiceVariables returns the arguments which are specified by the service variables for the message.
 // If there is no service variable which uses the message, it returns false.
 func (r *Resolver) messageArgumentFieldsFromServiceVariables(ctx *context, msg *Message) ([]*Field, bool) {
-- 
2.43.0


From f6c3561d19a4dad00c4856a384a5d9956f1b06ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:56:01 +0000
Subject: [PATCH 65/67] fix: a CEL plugin that exits or is closed no longer
 hangs or panics its callers

---
 grpc/federation/cel/plugin.go | 135 +++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 67 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index a3a2203..0bb6615 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -122,45 +122,60 @@ func (p *CELPlugin) CreateInstance(ctx context.Context, celRegistry *types.Regis
 		WithStderr(os.Stderr).
 		WithArgs("plugin")
 
-	// setting the buffer size to 1 ensures that the function can exit even if there is no receiver.
-	instanceModErrCh := make(chan error, 1)
-	go func() {
-		_, err := p.wasmRuntime.InstantiateModule(ctx, p.mod, modCfg)
-		instanceModErrCh <- err
-	}()
-
 	const gcQueueLength = 1
 
-	gcQueue := make(chan struct{}, gcQueueLength)
 	instance := &CELPluginInstance{
-		name:             p.cfg.Name,
-		functions:        p.cfg.Functions,
-		celRegistry:      celRegistry,
-		stdin:            stdinW,
-		stdout:           stdoutR,
-		instanceModErrCh: instanceModErrCh,
-		gcQueue:          gcQueue,
+		name:        p.cfg.Name,
+		functions:   p.cfg.Functions,
+		celRegistry: celRegistry,
+		stdin:       stdinW,
+		stdout:      stdoutR,
+		exited:      make(chan struct{}),
+		gcQueue:     make(chan struct{}, gcQueueLength),
+		gcStop:      make(chan struct{}),
 	}
+	go func() {
+		_, err := p.wasmRuntime.InstantiateModule(ctx, p.mod, modCfg)
+		instance.exitErr = err
+		close(instance.exited)
+		// Nobody reads from or writes to the pipes any longer, so release those who wait for it.
+		stdinR.CloseWithError(errPluginExited)
+		stdoutW.CloseWithError(errPluginExited)
+	}()
 	// start GC thread.
 	// It is enqueued into gcQueue using the `instance.GC()` function.
 	go func() {
-		for range gcQueue {
-			instance.startGC()
+		for {
+			select {
+			case <-instance.gcQueue:
+				instance.startGC()
+			case <-instance.gcStop:
+				return
+			case <-instance.exited:
+				return
+			}
 		}
 	}()
 	return instance
 }
 
+var (
+	errPluginClosed = errors.New("grpc-federation: plugin has already been closed")
+	errPluginExited = errors.New("grpc-federation: plugin has already exited")
+)
+
 type CELPluginInstance struct {
-	name             string
-	functions        []*CELFunction
-	celRegistry      *types.Registry
-	stdin            *io.PipeWriter
-	stdout           *io.PipeReader
-	instanceModErrCh chan error
-	closed           bool
-	mu               sync.Mutex
-	gcQueue          chan struct{}
+	name        string
+	functions   []*CELFunction
+	celRegistry *types.Registry
+	stdin       *io.PipeWriter
+	stdout      *io.PipeReader
+	exited      chan struct{} // closed when the module has exited, after setting exitErr.
+	exitErr     error
+	closed      bool
+	mu          sync.Mutex
+	gcQueue     chan struct{}
+	gcStop      chan struct{} // closed by Close.
 }
 
 const PluginProtocolVersion = 1
@@ -219,35 +234,39 @@ func (i *CELPluginInstance) ValidatePlugin(ctx context.Context) error {
 
 func (i *CELPluginInstance) write(cmd []byte) error {
 	if i.closed {
-		return nil
+		return errPluginClosed
 	}
+	if _, err := i.stdin.Write(cmd); err != nil {
+		return i.exitError(err)
+	}
+	return nil
+}
 
-	writeCh := make(chan error)
-	go func() {
-		_, err := i.stdin.Write(cmd)
-		writeCh <- err
-	}()
+// exitError returns the reason why the module exited if it did so, otherwise err.
+func (i *CELPluginInstance) exitError(err error) error {
 	select {
-	case err := <-i.instanceModErrCh:
-		// If the module instance is terminated,
-		// it is considered that the termination process has been completed.
-		i.closed = true
-		return err
-	case err := <-writeCh:
+	case <-i.exited:
+		if i.exitErr != nil {
+			return i.exitErr
+		}
+		return errPluginExited
+	default:
 		return err
 	}
 }
 
+// Close terminates the plugin. It does nothing if the plugin has already been closed.
 func (i *CELPluginInstance) Close(ctx context.Context) error {
 	i.mu.Lock()
 	defer i.mu.Unlock()
 
-	defer func() { i.closed = true }()
-	if err := i.write([]byte(exitCommand)); err != nil {
-		return err
+	if i.closed {
+		return nil
 	}
-	close(i.gcQueue)
-	return nil
+	err := i.write([]byte(exitCommand))
+	i.closed = true
+	close(i.gcStop)
+	return err
 }
 
 func (i *CELPluginInstance) LibraryName() string {
@@ -368,33 +387,15 @@ func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 
 func (i *CELPluginInstance) recvContent() (string, error) {
 	if i.closed {
-		return "", errors.New("grpc-federation: plugin has already been closed")
+		return "", errPluginClosed
 	}
 
-	type readResult struct {
-		response string
-		err      error
-	}
-	readCh := make(chan readResult)
-	go func() {
-		reader := bufio.NewReader(i.stdout)
-		content, err := reader.ReadString('\n')
-		if err != nil {
-			readCh <- readResult{err: fmt.Errorf("grpc-federation: failed to receive response from wasm plugin: %w", err)}
-			return
-		}
-		if content == "" {
-			readCh <- readResult{err: errors.New("grpc-federation: receive empty response from wasm plugin")}
-			return
-		}
-		readCh <- readResult{response: content}
-	}()
-	select {
-	case err := <-i.instanceModErrCh:
-		return "", err
-	case result := <-readCh:
-		return result.response, result.err
+	reader := bufio.NewReader(i.stdout)
+	content, err := reader.ReadString('\n')
+	if err != nil {
+		return "", i.exitError(fmt.Errorf("grpc-federation: failed to receive response from wasm plugin: %w", err))
 	}
+	return content, nil
 }
 
 func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plugin.CELPluginValue, error) {
-- 
2.43.0


From fcbd614b6011b9e7738bbc1b62a0ad439b55927a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:56:01 +0000
Subject: [PATCH 66/67] fix: keep percent signs in the error messages of CEL
 plugins

---
 grpc/federation/cel/plugin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index 0bb6615..00c3d9c 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -338,7 +338,7 @@ func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metada
 	defer i.mu.Unlock()
 
 	if err := i.sendRequest(fn, md, args...); err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErrFromString(err.Error())
 	}
 	return i.recvResponse(fn)
 }
@@ -372,7 +372,7 @@ func (i *CELPluginInstance) sendRequest(fn *CELFunction, md metadata.MD, args ..
 func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	content, err := i.recvContent()
 	if err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErrFromString(err.Error())
 	}
 
 	var res plugin.CELPluginResponse
@@ -380,7 +380,7 @@ func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 		return types.NewErr(fmt.Sprintf("grpc-federation: failed to decode response: %s", err.Error()))
 	}
 	if res.Error != "" {
-		return types.NewErr(res.Error)
+		return types.NewErrFromString(res.Error)
 	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
@@ -510,7 +510,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 	case types.DoubleKind:
 		return types.Double(v.GetDouble())
 	case types.ErrorKind:
-		return types.NewErr(v.GetString_())
+		return types.NewErrFromString(v.GetString_())
 	case types.IntKind:
 		return types.Int(v.GetInt64())
 	case types.StringKind:
-- 
2.43.0


From 13516c6a7644eec8bcc44042bae88e58d29a40c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:56:01 +0000
Subject: [PATCH 67/67] fix: pass repeated fields and durations to CEL plugin
 functions

---
 grpc/federation/cel/plugin.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index 00c3d9c..35cefef 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -11,18 +11,20 @@ import (
 	"io"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sync"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
+	"github.com/google/cel-go/common/types/traits"
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1"
 	"google.golang.org/grpc/metadata"
 	"google.golang.org/protobuf/encoding/protojson"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/anypb"
+	"google.golang.org/protobuf/types/known/durationpb"
+	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
 )
@@ -402,13 +404,15 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 	switch typ.Kind() {
 	case types.ListKind:
 		elemType := typ.Parameters()[0]
-		slice := reflect.ValueOf(v.Value())
+		lister, ok := v.(traits.Lister)
+		if !ok {
+			return nil, fmt.Errorf("grpc-federation: unexpected list value %T", v)
+		}
 		list := &plugin.CELPluginListValue{}
-		for idx := 0; idx < slice.Len(); idx++ {
-			src := slice.Index(idx).Interface()
-			val := i.celRegistry.NativeToValue(src)
+		for it := lister.Iterator(); it.HasNext() == types.True; {
+			val := it.Next()
 			if types.IsError(val) {
-				return nil, fmt.Errorf("failed to convert %T to CEL value: %v", src, val.Value())
+				return nil, fmt.Errorf("failed to convert list element to CEL value: %v", val.Value())
 			}
 			value, err := i.refToCELPluginValue(elemType, val)
 			if err != nil {
@@ -463,8 +467,15 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 				Uint64: uint64(vv),
 			},
 		}, nil
-	case types.StructKind:
-		switch vv := v.Value().(type) {
+	case types.StructKind, types.DurationKind, types.TimestampKind:
+		value := v.Value()
+		switch vv := v.(type) {
+		case types.Duration:
+			value = durationpb.New(vv.Duration)
+		case types.Timestamp:
+			value = timestamppb.New(vv.Time)
+		}
+		switch vv := value.(type) {
 		case proto.Message:
 			any, ok := vv.(*anypb.Any)
 			if !ok {
@@ -517,7 +528,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 		return types.String(v.GetString_())
 	case types.UintKind:
 		return types.Uint(v.GetUint64())
-	case types.StructKind:
+	case types.StructKind, types.DurationKind, types.TimestampKind:
 		return i.celRegistry.NativeToValue(v.GetMessage())
 	}
 	return types.NewErr("grpc-federation: unknown result type %s from %s function", typ, fn.Name)
-- 
2.43.0

