package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sync"
)

var statOut func()

func main() {
	verif := flag.String("verif", "/verif", "directory of the framework")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("job", "", "run a single job")
	sec := flag.Int("sec", 0, "time limit for the exploration")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym [-tier quick|thorough] PROPERTY")
		os.Exit(2)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	if os.Getenv("GOSYM_QSTAT") != "" {
		var mu sync.Mutex
		m := map[string]int{}
		qstat = func(r string, nv, nc int, cond *Term) {
			mu.Lock()
			m[fmt.Sprintf("%s vars=%d cons=%d size=%d", r, nv, nc/4*4, cond.size/20*20)]++
			mu.Unlock()
		}
		statOut = func() {
			for k, v := range m {
				fmt.Fprintln(os.Stderr, v, k)
			}
		}
	}
	rc := runCheck(*verif, flag.Arg(0), *tier, *only, *sec)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	if statOut != nil {
		statOut()
	}
	if slowLog != "" {
		printForks()
	}
	os.Exit(rc)
}
