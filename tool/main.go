// Command vt drives the deterministic simulation of the ninep code: it
// instruments the tree, builds the worker, searches seeds, and writes the
// evidence.
//
//	vt check PROP        search (VERIF_TIER, VERIF_SEED)
//	vt replay FILE       run a replay file again
//	vt selftest [N]      determinism of every scenario across processes
//	vt build DIR         instrument and build the worker in DIR
package main

import (
	"fmt"
	"os"
	"strconv"
)

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vt: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vt check|replay|selftest|build ...")
	}
	a := os.Args[2:]
	code := 0
	switch {
	case os.Args[1] == "check" && len(a) == 1:
		code = check(a[0])
	case os.Args[1] == "replay" && len(a) == 1:
		code = replay(a[0])
	case os.Args[1] == "selftest":
		n := 40
		if len(a) > 0 {
			n, _ = strconv.Atoi(a[0])
		}
		code = selftest(n)
	case os.Args[1] == "build" && len(a) == 1:
		if err := buildWorker(a[0]); err != nil {
			die("%v", err)
		}
	default:
		die("bad arguments %v", os.Args[1:])
	}
	cleanup()
	os.Exit(code)
}
