package main

// Builds a scratch Go module from generated proto files with the generator of /repo's working tree.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/mercari/grpc-federation/generator"
)

const repoDir = "/repo"

// verifDir is where the harness sources and specifications live.
func verifDir() string {
	if d := os.Getenv("VH_DIR"); d != "" {
		return d
	}
	return "/verif"
}

const nSites = 16

func beProto() string {
	var w strings.Builder
	w.WriteString("syntax = \"proto3\";\npackage be;\noption go_package = \"vgen/be;be\";\n\nservice Backend {\n")
	for i := 0; i < nSites; i++ {
		fmt.Fprintf(&w, "  rpc C%d(Req) returns (Res) {}\n", i)
	}
	w.WriteString(`}

enum E {
  E_ZERO = 0;
  E_ONE = 1;
  E_TWO = 2;
}

message Item {
  int64 n = 1;
  string s = 2;
}

message Req {
  string id = 1;
  int64 n = 2;
  string s = 3;
  bool b = 4;
  repeated int64 ns = 5;
  Item item = 6;
  E e = 7;
}

message Res {
  int64 n = 1;
  string s = 2;
  bool b = 3;
  repeated int64 ns = 4;
  repeated Item items = 5;
  Item item = 6;
  E e = 7;
}
`)
	return w.String()
}

// Pkg is one generated package (one proto file with service F).
type Pkg struct {
	Name  string
	Proto string // text
	Progs []*Prog
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh error:", err)
		os.Exit(2)
	}
}

func goEnv() []string {
	env := os.Environ()
	out := []string{}
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// Scratch is a scratch module directory.
type Scratch struct {
	Dir string
}

func newScratch(dir string) *Scratch {
	must(os.MkdirAll(filepath.Join(dir, "proto", "be"), 0o755))
	s := &Scratch{Dir: dir}
	s.write("proto/be/be.proto", beProto())
	for _, f := range []string{"go.mod", "go.sum"} {
		src, err := os.ReadFile(filepath.Join(verifDir(), "vh", "scratchmod", f+".txt"))
		must(err)
		s.write(f, string(src))
	}
	return s
}

func (s *Scratch) write(rel, content string) {
	p := filepath.Join(s.Dir, rel)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(content), 0o644))
}

// generate runs the generator of the working tree over every proto file of the scratch module.
func (s *Scratch) generate(only ...string) error {
	protoDir := filepath.Join(s.Dir, "proto")
	src := "src:\n"
	if len(only) == 0 {
		src += "  - " + protoDir + "\n"
	}
	for _, o := range only {
		src += "  - " + filepath.Join(protoDir, o) + "\n"
	}
	cfgText := fmt.Sprintf(`imports:
  - %s
  - %s/proto
%sout: %s
plugins:
  - plugin: go
    opt: paths=import
  - plugin: go-grpc
    opt: paths=import
  - plugin: grpc-federation
    opt:
    - paths=import
    - import_paths=%s
    - import_paths=%s/proto
`, protoDir, repoDir, src, s.Dir, protoDir, repoDir)
	cfg, err := generator.LoadConfigFromReader(strings.NewReader(cfgText))
	if err != nil {
		return err
	}
	g := generator.New(cfg)
	m, err := g.GenerateAll(context.Background())
	if err != nil {
		return err
	}
	for _, bc := range m {
		for _, res := range bc.Responses {
			if res.GetError() != "" {
				return fmt.Errorf("generator: %s", res.GetError())
			}
			for _, f := range res.GetFile() {
				s.write(strings.TrimPrefix(f.GetName(), "vgen/"), f.GetContent())
			}
		}
	}
	return nil
}

// gobuild compiles ./driver of the scratch module.
func (s *Scratch) gobuild(race bool, out string, pkg string) error {
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = s.Dir
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build: %w\n%s", err, tail(string(b), 6000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}
