package main

// Running TLC.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

const tlcCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

// TLCResult is the outcome of one TLC run.
type TLCResult struct {
	Out      string
	Exit     int
	States   int // distinct
	Gen      int // generated
	Lines    []string
	Violated string
}

var statesRe = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)

// tlc runs TLC on module mod of /verif/spec with the configuration cfg (a file name there or a text with newlines).
func tlc(dir, mod, cfg string, env []string, timeout time.Duration, args ...string) (*TLCResult, error) {
	specDir := filepath.Join(dir, "spec")
	if _, err := os.Stat(specDir); err != nil {
		must(os.MkdirAll(specDir, 0o755))
		fs, _ := filepath.Glob(filepath.Join(verifDir(), "spec", "*"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil {
				must(os.WriteFile(filepath.Join(specDir, filepath.Base(f)), b, 0o644))
			}
		}
	}
	if strings.Contains(cfg, "\n") {
		f, err := os.CreateTemp(specDir, mod+"*.cfg")
		must(err)
		f.WriteString(cfg)
		f.Close()
		cfg = filepath.Base(f.Name())
	}
	meta, err := os.MkdirTemp(dir, "meta")
	must(err)
	defer os.RemoveAll(meta)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	a := []string{"-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", tlcCP, "tlc2.TLC", "-workers", "8", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg}
	a = append(a, args...)
	a = append(a, mod+".tla")
	cmd := exec.CommandContext(ctx, "java", a...)
	cmd.Dir = specDir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	r := &TLCResult{Out: out.String()}
	if cmd.ProcessState != nil {
		r.Exit = cmd.ProcessState.ExitCode()
	}
	if ctx.Err() != nil {
		return r, fmt.Errorf("tlc: timed out after %v", timeout)
	}
	ms := statesRe.FindAllStringSubmatch(r.Out, -1)
	if len(ms) > 0 {
		r.Gen, _ = strconv.Atoi(ms[len(ms)-1][1])
		r.States, _ = strconv.Atoi(ms[len(ms)-1][2])
	}
	if os.Getenv("VH_KEEP") != "" {
		os.WriteFile(filepath.Join(dir, mod+".out"), out.Bytes(), 0o644)
	}
	for _, l := range strings.Split(r.Out, "\n") {
		if strings.HasPrefix(l, "\"") {
			if u, err := strconv.Unquote(l); err == nil {
				r.Lines = append(r.Lines, u)
				continue
			}
		}
		if strings.Contains(l, "is violated") || strings.Contains(l, "was violated") {
			r.Violated = strings.TrimSpace(l)
		}
	}
	if r.Exit != 0 && r.Violated == "" {
		return r, fmt.Errorf("tlc %s: exit %d\n%s", mod, r.Exit, tail(r.Out, 4000))
	}
	return r, nil
}
