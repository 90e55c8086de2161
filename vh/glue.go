package main

// Driver generation: connects generated packages with the driver runtime.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var (
	resolverRe = regexp.MustCompile(`(?s)type FResolver interface \{(.*?)\n\}`)
	methodRe   = regexp.MustCompile(`(?m)^\t(\w+)\(context\.Context, \*(\w+)\) \((.*), error\)$`)
)

func qualify(pkg, t string) string {
	switch {
	case strings.HasPrefix(t, "*") && !strings.Contains(t, "."):
		return "*" + pkg + "." + t[1:]
	}
	return t
}

// glue writes the driver's main package for the given packages.
func (s *Scratch) glue(pkgs []string) error {
	rtSrc, err := os.ReadFile(filepath.Join(verifDir(), "vh", "rt", "rt.go"))
	if err != nil {
		return err
	}
	s.write("rt/rt.go", string(rtSrc))
	var imp, body, ini strings.Builder
	usesCtx, usesBe := false, false
	for _, p := range pkgs {
		b, err := os.ReadFile(filepath.Join(s.Dir, p, p+"_grpc_federation.pb.go"))
		if err != nil {
			return err
		}
		src := string(b)
		fmt.Fprintf(&imp, "\t%q\n", "vgen/"+p)
		cfg := ""
		if strings.Contains(src, "Be_BackendClient(FClientConfig)") {
			usesBe = true
			fmt.Fprintf(&body, "type c_%s struct{}\n\nfunc (c_%s) Be_BackendClient(%s.FClientConfig) (be.BackendClient, error) { return be.NewBackendClient(rt.Conn{}), nil }\n\n", p, p, p)
			cfg += fmt.Sprintf("Client: c_%s{}, ", p)
		}
		if m := resolverRe.FindStringSubmatch(src); m != nil {
			ms := methodRe.FindAllStringSubmatch(m[1], -1)
			if len(ms) > 0 {
				usesCtx = true
				fmt.Fprintf(&body, "type r_%s struct{}\n\n", p)
				for _, x := range ms {
					t := qualify(p, x[3])
					fmt.Fprintf(&body, "func (r_%s) %s(ctx context.Context, a *%s.%s) (%s, error) { return rt.Custom[%s](ctx, %q, a) }\n\n", p, x[1], p, x[2], t, t, x[1])
				}
				cfg += fmt.Sprintf("Resolver: r_%s{}, ", p)
			}
		}
		fmt.Fprintf(&ini, "\trt.Register(%q, func() (any, error) { return %s.NewF(%s.FConfig{%sErrorHandler: rt.ErrorHandler, Logger: rt.Logger}) })\n", p, p, p, cfg)
	}
	h := "package main\n\nimport (\n"
	if usesCtx {
		h += "\t\"context\"\n"
	}
	if usesBe {
		h += "\t\"vgen/be\"\n"
	}
	s.write("driver/main.go", h+imp.String()+"\t\"vgen/rt\"\n)\n\n"+body.String()+"func main() {\n"+ini.String()+"\trt.Main()\n}\n")
	return nil
}
