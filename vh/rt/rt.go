// Package rt is the runtime of generated drivers: it invokes federation methods with fake backends whose answers are
// released one by one, and records everything that is observable as a totally ordered trace per request.
package rt

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/durationpb"
)

type J = map[string]any

// Outcome of one attempt of a call.
type Outcome struct {
	O string   `json:"o"` // ok err plain panic hang hangx
	C int      `json:"c"`
	M string   `json:"m"`
	D []Detail `json:"d"` // error details: kind and text
}

// Detail of an error: its kind and its text.
type Detail = []string

type SiteSpec struct {
	N     int64       `json:"n"`
	S     string      `json:"s"`
	B     bool        `json:"b"`
	Ns    []int64     `json:"ns"`
	Items []J         `json:"items"`
	Item  J           `json:"item"`
	Outs  [][]Outcome `json:"outs"`
	EH    string      `json:"eh"` // id wrap nil
}

type Step struct {
	Expect  []string `json:"expect"`
	Release string   `json:"release"`
}

type RunSpec struct {
	ID     string              `json:"id"`
	Pkg    string              `json:"pkg"`
	Method string              `json:"method"`
	Req    J                   `json:"req"`
	Sites  map[string]SiteSpec `json:"sites"`
	Steps  []Step              `json:"steps"`
	Mode   string              `json:"mode"` // script burst
	Fresh  bool                `json:"fresh"`
	HangMs int                 `json:"hangms"` // how long the request may take after everything has been released
	// the caller sets a (distant) deadline; backends give up when the context of the call is done
	Deadline bool `json:"deadline"`
	Aware    bool `json:"aware"`
}

type pending struct {
	ch chan struct{}
}

type run struct {
	spec     *RunSpec
	mu       sync.Mutex
	cond     *sync.Cond
	events   []J
	inflight map[string]*pending
	att      map[string]int
	ended    map[string]bool
	auto     bool
	over     chan struct{}
	returned bool
	start    time.Time
}

type runKey struct{}

func (r *run) log(e J) {
	e["ms"] = time.Since(r.start).Milliseconds()
	r.events = append(r.events, e)
}

func runOf(ctx context.Context) *run {
	r, _ := ctx.Value(runKey{}).(*run)
	if r == nil {
		panic("rt: request context was not propagated")
	}
	return r
}

// enter records the start of a call and waits for its release.
func (r *run) enter(ctx context.Context, key, site string, req any) (string, int) {
	r.mu.Lock()
	r.att[key]++
	i := r.att[key]
	r.log(J{"e": "start", "k": key, "i": i, "site": site, "req": req})
	p := &pending{ch: make(chan struct{})}
	id := fmt.Sprintf("%s@%d", key, i)
	r.inflight[id] = p
	if r.auto {
		close(p.ch)
		delete(r.inflight, id)
	}
	r.cond.Broadcast()
	r.mu.Unlock()
	if r.spec.Aware {
		select {
		case <-p.ch:
		case <-ctx.Done():
			// the release, if it is under way, wins
			r.mu.Lock()
			_, mine := r.inflight[id]
			delete(r.inflight, id)
			r.mu.Unlock()
			if mine {
				return id, -i
			}
			<-p.ch
		}
		return id, i
	}
	<-p.ch
	return id, i
}

func (r *run) logEnd(key string, i int, o Outcome, v any) {
	if o.D == nil {
		o.D = []Detail{}
	}
	r.mu.Lock()
	r.log(J{"e": "end", "k": key, "i": i, "o": J{"o": o.O, "c": o.C, "m": o.M, "d": o.D, "v": v}})
	r.ended[fmt.Sprintf("%s@%d", key, i)] = true
	r.cond.Broadcast()
	r.mu.Unlock()
}

func pickOutcome(s SiteSpec, n int64, i int) Outcome {
	if len(s.Outs) == 0 {
		return Outcome{O: "ok"}
	}
	l := int64(len(s.Outs))
	a := s.Outs[((n%l)+l)%l]
	if len(a) == 0 {
		return Outcome{O: "ok"}
	}
	if i > len(a) {
		i = len(a)
	}
	return a[i-1]
}

// finish applies an outcome; it returns the error of the call.
func (r *run) finish(ctx context.Context, key string, i int, o Outcome, v any) error {
	switch o.O {
	case "ok":
		r.logEnd(key, i, o, v)
		return nil
	case "err":
		err := statusErr(o)
		o.D = EncErr(err)["d"].([]Detail)
		r.logEnd(key, i, o, 0)
		return err
	case "plain":
		r.logEnd(key, i, o, 0)
		return errors.New(o.M)
	case "panic":
		r.logEnd(key, i, o, 0)
		panic(o.M)
	case "hang": // honours the context, as a real client does
		select {
		case <-ctx.Done():
		case <-r.over:
		}
		e := status.FromContextError(ctx.Err())
		r.logEnd(key, i, Outcome{O: "gone", C: int(e.Code()), M: e.Message()}, 0)
		return e.Err()
	case "hangx": // ignores the context
		<-r.over
		r.logEnd(key, i, Outcome{O: "gone", C: 14}, 0)
		return status.Error(codes.Unavailable, "late")
	case "hangp": // ignores the context, then panics
		<-r.over
		panic("late panic")
	}
	panic("rt: outcome " + o.O)
}

func statusErr(o Outcome) error {
	st := status.New(codes.Code(o.C), o.M)
	for _, d := range o.D {
		var m proto.Message
		x := d[1]
		switch d[0] {
		case "info":
			m = &errdetails.ErrorInfo{Reason: x}
		case "loc":
			m = &errdetails.LocalizedMessage{Locale: "en-US", Message: x}
		case "debug":
			m = &errdetails.DebugInfo{Detail: x}
		case "reqinfo":
			m = &errdetails.RequestInfo{RequestId: x}
		case "resinfo":
			m = &errdetails.ResourceInfo{ResourceName: x}
		case "retry":
			d, err := time.ParseDuration(x)
			if err != nil {
				panic(err)
			}
			m = &errdetails.RetryInfo{RetryDelay: durationpb.New(d)}
		case "quota":
			m = &errdetails.QuotaFailure{Violations: []*errdetails.QuotaFailure_Violation{{Subject: x, Description: x}}}
		case "pre":
			m = &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Type: x, Subject: x, Description: x}}}
		case "bad":
			m = &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: x, Description: x}}}
		case "help":
			m = &errdetails.Help{Links: []*errdetails.Help_Link{{Description: x, Url: x}}}
		default:
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(d[0]))
			if err != nil {
				panic(err)
			}
			m = mt.New().Interface()
			if err := Fill(m.ProtoReflect(), J{"n": len(x), "s": x}); err != nil {
				panic(err)
			}
		}
		var err error
		st, err = st.WithDetails(protoadapt.MessageV1Of(m))
		if err != nil {
			panic(err)
		}
	}
	return st.Err()
}

// Conn is the fake client connection.
type Conn struct{}

func (Conn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	panic("rt: stream")
}

func (Conn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	r := runOf(ctx)
	site := method[strings.LastIndex(method, "/")+1:]
	am := args.(proto.Message).ProtoReflect()
	req := Enc(am)
	f := req["f"].(J)
	key, _ := f["id"].(string)
	n, _ := f["n"].(int64)
	s, _ := f["s"].(string)
	_, i := r.enter(ctx, key, site, req)
	sp := r.spec.Sites[site]
	if i < 0 {
		return r.finish(ctx, key, -i, Outcome{O: "hang"}, 0)
	}
	o := pickOutcome(sp, n, i)
	rm := reply.(proto.Message).ProtoReflect()
	if o.O == "ok" {
		v := J{"n": sp.N + n, "s": s + sp.S, "b": sp.B, "ns": sp.Ns, "items": sp.Items, "e": int64(0)}
		if sp.Item != nil {
			v["item"] = sp.Item
		}
		if err := Fill(rm, v); err != nil {
			panic(err)
		}
	}
	return r.finish(ctx, key, i, o, Enc(rm))
}

// ErrorHandler is the service's ErrorHandler.
func ErrorHandler(ctx context.Context, method string, err error) error {
	if err == nil {
		return nil
	}
	r := runOf(ctx)
	site := method[strings.LastIndex(method, "/")+1:]
	r.mu.Lock()
	r.log(J{"e": "eh", "m": method, "err": EncErr(err)})
	r.mu.Unlock()
	switch r.spec.Sites[site].EH {
	case "nil":
		return nil
	case "wrap":
		st, _ := status.FromError(err)
		return status.Error(codes.Aborted, "EH:"+st.Message())
	}
	return err
}

// Custom implements custom resolvers.
func Custom[T any](ctx context.Context, name string, a any) (T, error) {
	r := runOf(ctx)
	var zero T
	rec, isField, pid, msg, n, s := encArg(a)
	parts := strings.Split(name, "_")
	last := parts[len(parts)-1]
	site := "M:" + last
	key := pid + "#M"
	var req any = J{"t": "arg", "f": rec}
	if isField {
		site = "F:" + parts[len(parts)-2] + "." + strings.ToLower(last)
		key = pid + "#" + strings.ToLower(last)
		req = J{"t": "arg", "f": rec, "m": msg}
	}
	_, i := r.enter(ctx, key, site, req)
	sp := r.spec.Sites[site]
	if i < 0 {
		return zero, r.finish(ctx, key, -i, Outcome{O: "hang"}, 0)
	}
	o := pickOutcome(sp, 0, i)
	var ret T
	var v any
	if o.O == "ok" {
		rt := reflect.TypeOf(zero)
		switch rt.Kind() {
		case reflect.Pointer:
			m := reflect.New(rt.Elem()).Interface()
			if err := Fill(m.(proto.Message).ProtoReflect(), J{"n": n + 1000, "s": s + "!"}); err != nil {
				panic(err)
			}
			ret = m.(T)
			v = Enc(m.(proto.Message).ProtoReflect())
		case reflect.Int64:
			ret = any(n + 500).(T)
			v = n + 500
		case reflect.String:
			ret = any("c:" + s).(T)
			v = "c:" + s
		default:
			panic("rt: custom type " + rt.String())
		}
	}
	if err := r.finish(ctx, key, i, o, v); err != nil {
		return zero, err
	}
	return ret, nil
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

func encGo(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Int64, reflect.Int32:
		return v.Int()
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, encGo(v.Index(i)))
		}
		return out
	case reflect.Pointer:
		if v.IsNil() {
			return J{"t": "nil"}
		}
		if m, ok := v.Interface().(proto.Message); ok {
			return Enc(m.ProtoReflect())
		}
	}
	return fmt.Sprint(v.Interface())
}

func encArg(a any) (rec J, isField bool, pid string, msg any, n int64, s string) {
	v := reflect.ValueOf(a).Elem()
	t := v.Type()
	msg = J{"t": "nil"}
	inner := v
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			isField = true
			if m, ok := v.Field(i).Interface().(proto.Message); ok {
				if !v.Field(i).IsNil() {
					msg = Enc(m.ProtoReflect())
				}
				continue
			}
			inner = v.Field(i).Elem()
		} else if isField {
			if m, ok := v.Field(i).Interface().(proto.Message); ok && !v.Field(i).IsNil() {
				msg = Enc(m.ProtoReflect())
			}
		}
	}
	rec = J{}
	it := inner.Type()
	for i := 0; i < it.NumField(); i++ {
		f := it.Field(i)
		if !f.IsExported() || f.Anonymous {
			continue
		}
		rec[lowerFirst(f.Name)] = encGo(inner.Field(i))
	}
	pid, _ = rec["pid"].(string)
	n, _ = rec["n"].(int64)
	s, _ = rec["s"].(string)
	return
}

// ---- encoding ----

func clamp(n int64) int64 {
	if n > 2000000000 {
		return 2000000000
	}
	if n < -2000000000 {
		return -2000000000
	}
	return n
}

func encScalar(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.EnumKind:
		return int64(v.Enum())
	case protoreflect.MessageKind:
		m := v.Message()
		if !m.IsValid() {
			return J{"t": "nil"}
		}
		return Enc(m)
	case protoreflect.Uint32Kind, protoreflect.Uint64Kind:
		return clamp(int64(v.Uint()))
	case protoreflect.Int32Kind, protoreflect.Int64Kind:
		return clamp(v.Int())
	}
	return fmt.Sprint(v.Interface())
}

// Enc encodes a message with all its fields.
func Enc(m protoreflect.Message) J {
	f := J{}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		name := string(fd.Name())
		switch {
		case fd.IsMap():
			continue
		case fd.IsList():
			out := []any{}
			l := m.Get(fd).List()
			for j := 0; j < l.Len(); j++ {
				out = append(out, encScalar(fd, l.Get(j)))
			}
			f[name] = out
		case fd.Kind() == protoreflect.MessageKind:
			if !m.Has(fd) {
				f[name] = J{"t": "nil"}
			} else {
				f[name] = encScalar(fd, m.Get(fd))
			}
		default:
			f[name] = encScalar(fd, m.Get(fd))
		}
	}
	os := m.Descriptor().Oneofs()
	for i := 0; i < os.Len(); i++ {
		od := os.Get(i)
		if od.IsSynthetic() {
			continue
		}
		w := m.WhichOneof(od)
		if w == nil {
			f["@"+string(od.Name())] = ""
		} else {
			f["@"+string(od.Name())] = string(w.Name())
		}
	}
	return J{"t": "msg", "f": f}
}

// Fill sets the fields of a message from plain JSON values.
func Fill(m protoreflect.Message, v J) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	var x map[string]any
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	return fill(m, x)
}

func fillScalar(m protoreflect.Message, fd protoreflect.FieldDescriptor, v any, newMsg func() protoreflect.Value) (protoreflect.Value, error) {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v.(bool)), nil
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.(string)), nil
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v.(float64))), nil
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(int64(v.(float64))), nil
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(v.(float64))), nil
	case protoreflect.MessageKind:
		nv := newMsg()
		return nv, fill(nv.Message(), v.(map[string]any))
	}
	return protoreflect.Value{}, fmt.Errorf("kind %v", fd.Kind())
}

func fill(m protoreflect.Message, x map[string]any) error {
	for k, v := range x {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil || v == nil {
			continue
		}
		if fd.IsList() {
			l := m.Mutable(fd).List()
			for _, e := range v.([]any) {
				pv, err := fillScalar(m, fd, e, l.NewElement)
				if err != nil {
					return err
				}
				l.Append(pv)
			}
			continue
		}
		pv, err := fillScalar(m, fd, v, func() protoreflect.Value { return m.NewField(fd) })
		if err != nil {
			return err
		}
		m.Set(fd, pv)
	}
	return nil
}

func encDetail(d any) Detail {
	switch m := d.(type) {
	case *errdetails.ErrorInfo:
		if len(m.Metadata) > 0 {
			return Detail{"info", m.Reason + "[" + m.Metadata["method"] + "," + m.Metadata["timeout"] + "]"}
		}
		return Detail{"info", m.Reason}
	case *errdetails.LocalizedMessage:
		return Detail{"loc", m.Message}
	case *errdetails.DebugInfo:
		return Detail{"debug", m.Detail}
	case *errdetails.RequestInfo:
		return Detail{"reqinfo", m.RequestId + m.ServingData}
	case *errdetails.ResourceInfo:
		return Detail{"resinfo", m.ResourceType + m.ResourceName + m.Owner + m.Description}
	case *errdetails.RetryInfo:
		return Detail{"retry", m.RetryDelay.AsDuration().String()}
	case *errdetails.QuotaFailure:
		s := ""
		for _, v := range m.Violations {
			s += v.Subject
			if v.Description != v.Subject {
				s += "=" + v.Description
			}
			s += ";"
		}
		return Detail{"quota", s}
	case *errdetails.BadRequest:
		s := ""
		for _, v := range m.FieldViolations {
			s += v.Field + "=" + v.Description + ";"
		}
		return Detail{"bad", s}
	case *errdetails.PreconditionFailure:
		s := ""
		for _, v := range m.Violations {
			s += v.Type + "," + v.Subject + "=" + v.Description + ";"
		}
		return Detail{"pre", s}
	case *errdetails.Help:
		s := ""
		for _, v := range m.Links {
			s += v.Description + v.Url + ";"
		}
		return Detail{"help", s}
	case proto.Message:
		pm := m.ProtoReflect()
		fs := pm.Descriptor().Fields()
		n, sf := fs.ByName("n"), fs.ByName("s")
		if n != nil && sf != nil {
			return Detail{string(pm.Descriptor().Name()), fmt.Sprintf("%d:%s", pm.Get(n).Int(), pm.Get(sf).String())}
		}
		return Detail{string(pm.Descriptor().Name()), ""}
	}
	return Detail{fmt.Sprintf("%T", d), ""}
}

// EncErr encodes an error.
func EncErr(err error) J {
	msg := err.Error()
	if st, ok := status.FromError(err); ok {
		d := []Detail{}
		for _, x := range st.Details() {
			d = append(d, encDetail(x))
		}
		return J{"k": "st", "c": int(st.Code()), "m": st.Message(), "d": d}
	}
	if strings.HasPrefix(msg, "recovered error: ") {
		return J{"k": "panic", "c": 0, "m": strings.TrimPrefix(msg, "recovered error: "), "d": []Detail{}}
	}
	return J{"k": "plain", "c": 0, "m": msg, "d": []Detail{}}
}

// ---- logging ----

type handler struct{}

func (handler) Enabled(context.Context, slog.Level) bool { return true }
func (h handler) WithAttrs([]slog.Attr) slog.Handler     { return h }
func (h handler) WithGroup(string) slog.Handler          { return h }
func (handler) Handle(ctx context.Context, rec slog.Record) error {
	st := false
	rec.Attrs(func(a slog.Attr) bool {
		if a.Key == "grpc_status" {
			st = true
		}
		a.Value.Resolve()
		return true
	})
	if !st && rec.Level < slog.LevelInfo {
		return nil
	}
	r, _ := ctx.Value(runKey{}).(*run)
	if r == nil {
		return nil
	}
	r.mu.Lock()
	r.log(J{"e": "log", "lv": rec.Level.String(), "m": rec.Message, "st": st})
	r.mu.Unlock()
	return nil
}

// Logger is the service's logger.
var Logger = slog.New(handler{})

// ---- execution ----

type factory func() (any, error)

var factories = map[string]factory{}

// Register declares the service of a package.
func Register(pkg string, f func() (any, error)) { factories[pkg] = f }

var (
	svcMu    sync.Mutex
	services = map[string]any{}
)

func service(pkg string, fresh bool) (any, error) {
	f := factories[pkg]
	if f == nil {
		return nil, fmt.Errorf("unknown package %s", pkg)
	}
	if fresh {
		return f()
	}
	svcMu.Lock()
	defer svcMu.Unlock()
	if s, ok := services[pkg]; ok {
		return s, nil
	}
	s, err := f()
	if err == nil {
		services[pkg] = s
	}
	return s, err
}

var (
	stuckMu sync.Mutex
	stuck   int
)

func patience() time.Duration {
	stuckMu.Lock()
	defer stuckMu.Unlock()
	if stuck > 2 {
		return 700 * time.Millisecond
	}
	return 12 * time.Second
}

func addStuck() {
	stuckMu.Lock()
	stuck++
	stuckMu.Unlock()
}

const settle = 2 * time.Millisecond

func (r *run) waitFor(expect []string) {
	want := map[string]bool{}
	for _, e := range expect {
		want[e] = true
	}
	deadline := time.Now().Add(patience())
	timer := time.AfterFunc(time.Until(deadline)+time.Millisecond, func() { r.mu.Lock(); r.cond.Broadcast(); r.mu.Unlock() })
	defer timer.Stop()
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.returned {
			return
		}
		all := true
		for w := range want {
			if r.inflight[w] == nil && !r.ended[w] {
				all = false
			}
		}
		if all {
			// everything expected is in flight; give anything else the chance to show up
			r.mu.Unlock()
			time.Sleep(settle)
			r.mu.Lock()
			break
		}
		if time.Now().After(deadline) {
			addStuck()
			break
		}
		r.cond.Wait()
	}
	keys := []string{}
	for k := range r.inflight {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.log(J{"e": "quiet", "in": keys})
}

func (r *run) release(id string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if p := r.inflight[id]; p != nil {
		delete(r.inflight, id)
		close(p.ch)
		for !r.ended[id] {
			r.cond.Wait()
		}
	}
}

func (r *run) releaseAll() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.auto = true
	ids := []string{}
	for id := range r.inflight {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		close(r.inflight[id].ch)
		delete(r.inflight, id)
	}
}

// Do executes one run and returns its trace.
func Do(spec *RunSpec) J {
	r := &run{spec: spec, inflight: map[string]*pending{}, att: map[string]int{}, ended: map[string]bool{}, over: make(chan struct{})}
	r.cond = sync.NewCond(&r.mu)
	svc, err := service(spec.Pkg, spec.Fresh)
	if err != nil {
		return J{"id": spec.ID, "fail": err.Error()}
	}
	m := reflect.ValueOf(svc).MethodByName(spec.Method)
	if !m.IsValid() {
		return J{"id": spec.ID, "fail": "no method " + spec.Method}
	}
	req := reflect.New(m.Type().In(1).Elem())
	if err := Fill(req.Interface().(proto.Message).ProtoReflect(), spec.Req); err != nil {
		return J{"id": spec.ID, "fail": err.Error()}
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), runKey{}, r))
	defer cancel()
	if spec.Deadline {
		var c func()
		ctx, c = context.WithTimeout(ctx, time.Minute)
		defer c()
	}
	r.auto = spec.Mode == "burst"
	r.start = time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		ev := J{"e": "ret"}
		defer func() {
			if x := recover(); x != nil {
				ev["ok"] = false
				ev["err"] = J{"k": "escaped", "c": 0, "m": fmt.Sprint(x), "d": []Detail{}}
				ev["v"] = 0
			}
			r.mu.Lock()
			r.returned = true
			r.log(ev)
			r.cond.Broadcast()
			r.mu.Unlock()
		}()
		out := m.Call([]reflect.Value{reflect.ValueOf(ctx), req})
		if e, _ := out[1].Interface().(error); e != nil {
			ev["ok"] = false
			ev["err"] = EncErr(e)
			ev["v"] = 0
		} else {
			ev["ok"] = true
			ev["err"] = J{"k": "none", "c": 0, "m": "", "d": []Detail{}}
			if out[0].IsNil() {
				ev["v"] = J{"t": "nil"}
			} else {
				ev["v"] = Enc(out[0].Interface().(proto.Message).ProtoReflect())
			}
		}
	}()
	if spec.Mode != "burst" {
		for _, st := range spec.Steps {
			r.waitFor(st.Expect)
			if st.Release == "!cancel" {
				r.mu.Lock()
				r.log(J{"e": "cancel"})
				r.mu.Unlock()
				cancel()
				if spec.Aware {
					time.Sleep(settle)
				}
				break
			}
			r.release(st.Release)
		}
		r.releaseAll()
	}
	hm := time.Duration(spec.HangMs) * time.Millisecond
	if hm == 0 {
		hm = patience() + 8*time.Second
	}
	select {
	case <-done:
	case <-time.After(hm):
		addStuck()
		r.mu.Lock()
		r.log(J{"e": "hang"})
		r.mu.Unlock()
	}
	r.mu.Lock()
	evs := append([]J{}, r.events...)
	r.mu.Unlock()
	close(r.over)
	return J{"id": spec.ID, "ev": evs}
}

// Batch is a set of runs executed concurrently.
type Input struct {
	Parallel int        `json:"parallel"`
	Batches  [][]string `json:"batches"` // ids executed at the same time; empty: all runs, Parallel at a time
	Runs     []*RunSpec `json:"runs"`
}

// Main is the entry point of drivers: driver IN.json OUT.ndjson.
func Main() {
	b, err := os.ReadFile(os.Args[1])
	check(err)
	var in Input
	check(json.Unmarshal(b, &in))
	f, err := os.Create(os.Args[2])
	check(err)
	w := bufio.NewWriter(f)
	var wmu sync.Mutex
	emit := func(x J) {
		b, err := json.Marshal(x)
		check(err)
		wmu.Lock()
		defer wmu.Unlock()
		w.Write(b)
		w.WriteByte('\n')
		check(w.Flush())
	}
	if in.Parallel == 0 {
		in.Parallel = 8
	}
	sem := make(chan struct{}, in.Parallel)
	var wg sync.WaitGroup
	for _, r := range in.Runs {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			emit(Do(r))
		}()
	}
	wg.Wait()
	// late work of abandoned calls runs before the process ends
	time.Sleep(50 * time.Millisecond)
	check(w.Flush())
	check(f.Close())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver error:", err)
		os.Exit(3)
	}
}
