package absint

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run analyses fn with arbitrary arguments.
func (e *Engine) Run(fn *ssa.Function) []*State {
	e.root = e.obl
	st := e.newState()
	f := &Frame{fn, 0, map[ssa.Value]Val{}, ""}
	st.frames = []*Frame{f}
	// the driver's own variables start as zero
	e.touch = fn.Pkg.Func("verifTouched") != nil
	e.Copies = fn.Pkg.Func("verifCopies") != nil
	e.touches = fn.Pkg.Func("verifSplitTouches") != nil
	e.sums = fn.Pkg.Func("verifSums") != nil
	var names []string
	for n, m := range fn.Pkg.Members {
		if _, ok := m.(*ssa.Global); ok && strings.HasPrefix(n, "verif") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g := fn.Pkg.Members[n].(*ssa.Global)
		e.globals[g] = e.zero(g.Type().(*types.Pointer).Elem())
		e.globalRef(st, g)
	}
	for _, p := range fn.Params {
		if e.Congruent {
			f.regs[p] = e.stableVal(st, p.Name(), p.Type())
		} else {
			f.regs[p] = e.fresh(st, p, p.Name(), p.Type())
		}
	}
	return e.runFn(fn, []*State{st})
}

// Reached returns the functions analysed with their reached and total blocks.
func (e *Engine) Reached() map[*ssa.Function][2]int {
	m := map[*ssa.Function][2]int{}
	for f, d := range e.fnInfo {
		m[f] = [2]int{len(d.reached), len(d.rpo)}
	}
	return m
}
