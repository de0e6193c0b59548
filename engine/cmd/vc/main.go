// Command vc decides one property of /repo by symbolic execution of its current source.
//
//	vc check ID            run the check of a property (VERIF_TIER=quick|thorough)
//	vc run PKG FN [k=v..]  explore one harness verbosely (debugging)
//	vc replay FILE         run a recorded counterexample natively
package main

import (
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vc check ID | vc run PKG FN [k=v...] | vc replay FILE")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "run":
		params := map[string]string{}
		for _, a := range os.Args[4:] {
			k, v, _ := strings.Cut(a, "=")
			params[k] = v
		}
		debugRun(os.Args[2], os.Args[3], params)
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
}
