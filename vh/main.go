package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh <command>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker()
	case "resolve": // DIR FILE...: what the resolver says about the last of the files
		res := newPool(1).do(&WReq{Dir: os.Args[2], Entry: os.Args[3:]})
		fmt.Println(res)
	case "cgdump": // DIR ROLE NAME...: write the schema of a name case
		set := map[string]string{}
		for i := 3; i+1 < len(os.Args); i += 2 {
			set[os.Args[i]] = os.Args[i+1]
		}
		fs, entry := nameSchema(set)
		for n, t := range fs {
			must(os.WriteFile(filepath.Join(os.Args[2], n), []byte(t), 0o644))
		}
		fmt.Println(entry)
	case "gocheck": // DIR FILE: the stages of C04 for one schema
		cmdGocheck(os.Args[2], os.Args[3])
	case "genhist": // one history of G01
		cmdGenHist()
	case "try":
		cmdTry(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
