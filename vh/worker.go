package main

// A pool of worker processes which run the resolver, validator and generator of the working tree, so that a crash or
// an endless recursion there is an outcome and not the end of the check.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"

	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/generator"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"
)

// WReq is one request to a worker.
type WReq struct {
	Op    string            `json:"op"`
	Dir   string            `json:"dir"`   // import path; Files are written below it first
	Files map[string]string `json:"files"` // relative path -> content
	Entry []string          `json:"entry"` // entries, processed in order; the response is about the last one
	Gen   bool              `json:"gen"`
	Arg   json.RawMessage   `json:"arg,omitempty"`
}

// WRes is the answer.
type WRes struct {
	Crash    string            `json:"crash,omitempty"` // panic, process death
	Hang     bool              `json:"hang,omitempty"`
	Compile  string            `json:"compile,omitempty"` // the proto compiler's error
	Errs     []string          `json:"errs,omitempty"`    // errors of the resolver, with positions
	Warns    []string          `json:"warns,omitempty"`
	Msgs     []string          `json:"msgs,omitempty"` // the messages of Errs
	GenErr   string            `json:"generr,omitempty"`
	Out      map[string]string `json:"out,omitempty"`
	Out2     map[string]string `json:"out2,omitempty"`
	Value    json.RawMessage   `json:"value,omitempty"`
	GoFiles  []string          `json:"gofiles,omitempty"`
	Resolved int               `json:"resolved"`
}

// OK says that the schema was accepted.
func (r *WRes) OK() bool {
	return r.Crash == "" && !r.Hang && r.Compile == "" && len(r.Errs) == 0
}

func (r *WRes) String() string {
	c := *r
	c.Out, c.Out2 = nil, nil
	b, _ := json.MarshalIndent(&c, "", " ")
	return string(b)
}

// workerOps are further operations.
var workerOps = map[string]func(*WReq, *WRes){}

func cmdWorker() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(512 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.Stdout
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var req WReq
		if err := dec.Decode(&req); err != nil {
			return
		}
		res := &WRes{}
		func() {
			defer func() {
				if e := recover(); e != nil {
					res.Crash = fmt.Sprintf("panic: %v\n%s", e, tail(string(debug.Stack()), 3000))
				}
			}()
			for name, text := range req.Files {
				p := filepath.Join(req.Dir, name)
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				must(os.WriteFile(p, []byte(text), 0o644))
			}
			if f := workerOps[req.Op]; f != nil {
				f(&req, res)
				return
			}
			for _, e := range req.Entry {
				*res = WRes{Resolved: res.Resolved + 1}
				resolveOne(&req, e, res)
			}
		}()
		must(enc.Encode(res))
	}
}

func importPaths(dir string) []string { return []string{dir, filepath.Join(repoDir, "proto")} }

// compileFile is the proto compiler alone.
func compileFile(dir, entry string) ([]*descriptorpb.FileDescriptorProto, *source.File, error) {
	p := filepath.Join(dir, entry)
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, nil, err
	}
	f, err := source.NewFile(p, b)
	if err != nil {
		return nil, nil, err
	}
	fds, err := compiler.New().Compile(context.Background(), f, compiler.ImportPathOption(importPaths(dir)...))
	return fds, f, err
}

func resolveOne(req *WReq, entry string, res *WRes) {
	fds, _, err := compileFile(req.Dir, entry)
	if err != nil {
		res.Compile = err.Error()
		return
	}
	result, err := resolver.New(fds, resolver.ImportPathOption(importPaths(req.Dir)...)).Resolve()
	for _, e := range resolver.ExtractIndividualErrors(err) {
		res.Msgs = append(res.Msgs, e.Error())
	}
	if err != nil && len(res.Msgs) == 0 {
		res.Msgs = append(res.Msgs, err.Error())
	}
	outs := validator.New().ToValidationOutputByResolverResult(result, err, validator.ImportPathOption(importPaths(req.Dir)...))
	for _, o := range outs {
		s := fmt.Sprintf("%s:%d:%d: %s", o.Path, o.Start.Line, o.Start.Col, o.Message)
		if o.IsWarning {
			res.Warns = append(res.Warns, s)
		} else {
			res.Errs = append(res.Errs, s)
		}
	}
	if err != nil && len(res.Errs) == 0 {
		res.Errs = append(res.Errs, err.Error())
	}
	if !req.Gen || err != nil {
		return
	}
	res.Out = map[string]string{}
	for _, file := range result.Files {
		b, err := generator.NewCodeGenerator().Generate(file)
		if err != nil {
			res.GenErr = err.Error()
			return
		}
		res.Out[file.Name] = string(b)
	}
}

// Pool is a set of worker processes.
type Pool struct {
	free    chan *worker
	Timeout time.Duration
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err *os.File
}

func startWorker() *worker {
	exe, err := os.Executable()
	must(err)
	w := &worker{}
	// a bound on the address space: an endless recursion must not take the machine down
	w.cmd = exec.Command("/bin/bash", "-c", "ulimit -v 12000000; exec \"$0\" worker", exe)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	w.in, err = w.cmd.StdinPipe()
	must(err)
	out, err := w.cmd.StdoutPipe()
	must(err)
	w.err, err = os.CreateTemp("", "vhw")
	must(err)
	os.Remove(w.err.Name())
	w.cmd.Stderr = w.err
	must(w.cmd.Start())
	w.out = json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	return w
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.err.Close()
}

func newPool(n int) *Pool {
	p := &Pool{free: make(chan *worker, n), Timeout: 60 * time.Second}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

// do runs one request.
func (p *Pool) do(req *WReq) *WRes {
	w := <-p.free
	if w == nil {
		w = startWorker()
	}
	res := &WRes{}
	ch := make(chan error, 1)
	go func() {
		if err := json.NewEncoder(w.in).Encode(req); err != nil {
			ch <- err
			return
		}
		ch <- w.out.Decode(res)
	}()
	select {
	case err := <-ch:
		if err == nil {
			p.free <- w
			return res
		}
		w.in.Close()
		w.cmd.Wait()
		b := make([]byte, 4000)
		n, _ := w.err.ReadAt(b, 0)
		w.stop()
		p.free <- nil
		return &WRes{Crash: "the process died: " + err.Error() + "\n" + string(b[:n])}
	case <-time.After(p.Timeout):
		w.stop()
		p.free <- nil
		return &WRes{Hang: true}
	}
}

// all runs the requests on the pool and returns the answers in order.
func (p *Pool) all(reqs []*WReq) []*WRes {
	out := make([]*WRes, len(reqs))
	var wg sync.WaitGroup
	idx := make(chan int)
	for i := 0; i < cap(p.free); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				out[i] = p.do(reqs[i])
			}
		}()
	}
	for i := range reqs {
		idx <- i
	}
	close(idx)
	wg.Wait()
	return out
}

// once runs one request in a fresh process.
func (p *Pool) once(req *WReq) *WRes {
	q := newPool(1)
	q.Timeout = p.Timeout
	defer q.close()
	return q.do(req)
}

func (p *Pool) close() {
	for i := 0; i < cap(p.free); i++ {
		if w := <-p.free; w != nil {
			w.stop()
		}
	}
}
