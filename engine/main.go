package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdRun explores entries without replay (for development).
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	har := fs.String("harness", "/verif/harness", "")
	tier := fs.String("tier", "quick", "")
	v := fs.Bool("v", false, "")
	nw := fs.Int("j", 8, "")
	secs := fs.Int("t", 120, "")
	maxp := fs.Int64("paths", 0, "")
	seed := fs.Int64("seed", 1, "")
	prof := fs.String("prof", "", "")
	nsamp := fs.Int("samples", 1, "")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if fs.NArg() == 0 {
		return
	}
	t0 := time.Now()
	prop := fs.Arg(0)[:3]
	h, err := prepare(*repo, *har, prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer h.cleanup()
	p, err := h.load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, e := range h.entries {
		ok := false
		for _, a := range fs.Args() {
			if e.Func == a || strings.HasSuffix(a, "*") && strings.HasPrefix(e.Func, strings.TrimSuffix(a, "*")) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		x := &Explorer{p: p, entry: p.byPath[vpath+"h"].Func(e.Func), name: e.Func, thorough: *tier == "thorough",
			deadline: time.Now().Add(time.Duration(*secs) * time.Second), maxPaths: *maxp, maxSteps: 300_000_000,
			seed: *seed, nwork: *nw, verbose: *v}
		t1 := time.Now()
		x.run()
		fmt.Printf("== %s %.1fs exhausted=%v err=%q dropped=%d\n", e.Func, time.Since(t1).Seconds(), x.exhausted, x.engErr, x.dropped)
		b, _ := json.Marshal(x.stats)
		fmt.Println(string(b))
		for _, w := range x.aud.refuted {
			fmt.Printf("  UNSOUND %s\n", w)
		}
		for _, k := range sortedKeys(x.incs) {
			fmt.Printf("  INC %d × %s\n", x.incs[k], k)
		}
		for _, v := range x.viols {
			b, _ := json.Marshal(v)
			fmt.Printf("  VIOL %s\n", b)
		}
		fmt.Printf("  covers %v\n", x.covers)
		for i, s := range x.samples {
			if i < *nsamp {
				b, _ := json.Marshal(s)
				fmt.Printf("  SAMPLE %s\n", b)
			}
		}
		if *v {
			var st []string
			for k, n := range x.stubs {
				st = append(st, fmt.Sprintf("%s×%d", k, n))
			}
			sort.Strings(st)
			fmt.Println("  stubs", st)
			fmt.Println("  funcs", sortedKeys(x.funcs))
		}
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	fmt.Fprintf(os.Stderr, "total %.1fs heap %dMB\n", time.Since(t0).Seconds(), ms.Sys>>20)
}
