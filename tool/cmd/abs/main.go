// Command abs runs the abstract interpreter on one function, for debugging.
package main

import (
	"runtime/pprof"

	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"ftverif/absint"
	"ftverif/checks"
	"ftverif/load"
	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	pkg := flag.String("pkg", load.RepoPath+"/truetype", "")
	fn := flag.String("fn", "Parse", "")
	src := flag.String("src", "", "driver source file")
	debug := flag.Bool("debug", false, "")
	unroll := flag.Bool("unroll", false, "")
	trace := flag.String("trace", "", "")
	flat := flag.Bool("flat", false, "")
	iter := flag.Bool("iter", false, "")
	paths := flag.Bool("paths", false, "")
	which := flag.String("case", "0", "value of the driver's verifCase")
	prof := flag.String("prof", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	extra := map[string]string{}
	if *src != "" {
		b, err := os.ReadFile(*src)
		if err != nil {
			panic(err)
		}
		extra[*pkg] = strings.Replace(string(b), "const verifCase = 0\n", "const verifCase = "+*which+"\n", 1)
	}
	p, err := load.LoadWith(*repo, "", extra)
	if err != nil {
		panic(err)
	}
	f := p.Func(*pkg, *fn)
	t0 := time.Now()
	e := absint.New(p.SSA, p.Fset)
	e.Debug = *debug
	if err := checks.Drive(e, p, *pkg); err != nil {
		panic(err)
	}
	e.Trace = *trace
	if *unroll {
		e.Unroll = func(f *ssa.Function) bool { return f.Name() == "Paint" }
	}
	e.Flat = *flat
	e.Iter = *iter
	if *paths || *flat {
		e.Paths = func(f []*absint.Frame) bool { return absint.Below(f, "verifPaths") }
	}
	rets := e.Run(f)
	n, bad := 0, 0
	for _, o := range e.Obligations() {
		n++
		if !o.OK {
			bad++
			fmt.Printf("FAIL %s: %s in %s (%s)\n     %s\n", p.Pos(o.In.Pos()), o.Kind, o.Fn.Name(), o.Why, o.Path)
		}
	}
	fmt.Printf("%d obligations, %d failed, %d return states, %v\n%s\n", n, bad, len(rets), time.Since(t0), e.Stats())
	if *debug {
		for _, r := range rets {
			fmt.Println(e.Dump(r))
		}
	}
	var ns []string
	for k := range e.Notes() {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		fmt.Println("note:", k, e.Notes()[k])
	}
}
