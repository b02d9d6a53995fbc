package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type symInfo struct {
	name string
	rng  itv
}

type objInfo struct {
	name   string
	typ    types.Type
	global bool
	old    ObjID // summary of earlier objects of the same site
}

type stats struct {
	lp, joins, instrs, calls, passes int
}

type memoKey struct {
	ctx int
	at  interface{}
	tag string
}

type ctxKey struct {
	parent int
	at     ssa.Instruction
}

// Obligation is a run-time check the analysed code must pass.
type Obligation struct {
	Kind string
	In   ssa.Instruction
	Fn   *ssa.Function
	OK   bool
	Why  string
	Path string // call path of a failing context
	Hist string // branches taken before it, if paths are kept apart
	Lost bool   // fails only after the analysis had to let go of a tracked element
}

// Engine holds global analysis tables.
type Engine struct {
	Prog   *ssa.Program
	Fset   *token.FileSet
	Inline func(*ssa.Function) bool
	Debug  bool
	Trace  string
	hard   bool // widen so that the loop at hand ends

	syms   []symInfo
	prods  map[[2]Sym]Sym
	prodOf map[Sym][2]Sym
	objs   []objInfo
	nref   RefID
	nver   int

	symMemo  map[memoKey]Sym
	refMemo  map[memoKey]RefID
	objMemo  map[memoKey]ObjID
	verMemo  map[memoKey]int
	ctxMemo  map[ctxKey]int
	ctxs     []ctxKey
	fnInfo   map[*ssa.Function]*fnData
	notes    map[string]int
	globals  map[*ssa.Global]Val
	set      map[*ssa.Global]bool // those that the program may set
	parts    map[*ssa.Global][]partInit
	inits    map[*ssa.Global]ssa.Value // what package initialisation gives them
	phiOf    map[Sym]siteKey
	phiRefOf map[RefID]siteKey
	phiVerOf map[int]siteKey
	constSym map[Sym]bool
	keep     map[Sym]int // symbols of loop entry values, kept while in the loop
	// OnWrite, when set, sees every write of array elements [lo, hi).
	OnWrite func(st *State, in ssa.Instruction, obj ObjID, lo, hi Lin)
	// Copies has append always make a new array if what it holds is known.
	Copies bool

	// Unroll keeps the iterations of outermost loops over constant ranges apart.
	Unroll func(fn *ssa.Function) bool
	// Paths keeps the paths through a function apart, and all iterations of
	// loops over constant ranges.
	Paths func(stack []*Frame) bool
	// Flat restricts Paths to code outside loops.
	Flat bool

	// Iter makes Paths forget what earlier iterations of a loop did when the
	// number of iterations is not known; otherwise such a loop's iterations
	// are not kept apart by path at all.
	Iter bool
	root *oblSet
	// Deadline is when to give up.
	Deadline time.Time

	blocks int
	open   map[*ssa.Function]int // the functions with such a loop being analysed
	// CellKey gives heap cells a say in how states are kept apart.
	CellKey func(*State, *Obj) string

	// Congruent makes operations on equal stable operands give equal results.
	Congruent bool
	tracks    []ghost // elements tracked in new arrays, by type
	trackEl   []types.Type
	touches   bool // whether tracked elements are touched distinguishes paths
	sums      bool // joining bits that do not overlap is an addition
	touch     bool // the driver asks which array elements were touched
	// Replace gives functions another body.
	Replace map[*ssa.Function]*ssa.Function
	// Recursion does, where they are called while they run.
	Recursion map[*ssa.Function]*ssa.Function

	stable    map[Sym]bool
	stableRef map[RefID]bool
	pure      string
	pureOps   map[string][]pureOpUse
	pureCalls map[string][]pureCall
	pureSyms  map[string]map[string]Sym // symbols named by a key
	pureSub   map[string][]string       // keys of the parts of a key's value

	obl   *oblSet
	depth int
	loops int
	stats stats
}

// New returns an engine.
func New(prog *ssa.Program, fset *token.FileSet) *Engine {
	e := &Engine{Prog: prog, Fset: fset, open: map[*ssa.Function]int{},
		prods: map[[2]Sym]Sym{}, prodOf: map[Sym][2]Sym{},
		symMemo: map[memoKey]Sym{}, refMemo: map[memoKey]RefID{}, objMemo: map[memoKey]ObjID{}, verMemo: map[memoKey]int{},
		ctxMemo: map[ctxKey]int{}, ctxs: []ctxKey{{}}, fnInfo: map[*ssa.Function]*fnData{}, notes: map[string]int{},
		globals: map[*ssa.Global]Val{}, phiOf: map[Sym]siteKey{}, phiRefOf: map[RefID]siteKey{}, phiVerOf: map[int]siteKey{}, constSym: map[Sym]bool{}, keep: map[Sym]int{},
		stable: map[Sym]bool{}, stableRef: map[RefID]bool{}, pureOps: map[string][]pureOpUse{}, pureCalls: map[string][]pureCall{}, pureSyms: map[string]map[string]Sym{}, pureSub: map[string][]string{}}
	e.objs = append(e.objs, objInfo{name: "none"})
	e.obl = newOblSet()
	return e
}

type oblKey struct {
	in   ssa.Instruction
	kind string
}

type oblSet struct {
	m map[oblKey]*Obligation
}

func newOblSet() *oblSet { return &oblSet{map[oblKey]*Obligation{}} }

func (o *oblSet) merge(p *oblSet) {
	for k, v := range p.m {
		if w := o.m[k]; w == nil {
			o.m[k] = v
		} else if !v.OK && (w.OK || w.Lost && !v.Lost) {
			o.m[k] = v
		}
	}
}

func (e *Engine) oblige(st *State, in ssa.Instruction, kind string, ok bool, why func() string) {
	k := oblKey{in, kind}
	o := e.obl.m[k]
	if o == nil {
		o = &Obligation{Kind: kind, In: in, Fn: in.Parent(), OK: true}
		e.obl.m[k] = o
	}
	if !ok && (o.OK || o.Lost && !st.lost) {
		o.OK, o.Lost = false, st.lost
		o.Path = e.ctxStr(st.top().ctx)
		o.Hist = e.history(st.hist)
		if why != nil {
			o.Why = why()
		}
	}
}

// Obligations returns all obligations in source order.
func (e *Engine) Obligations() []*Obligation {
	var out []*Obligation
	for _, o := range e.obl.m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].In.Pos() != out[j].In.Pos() {
			return out[i].In.Pos() < out[j].In.Pos()
		}
		if a, b := out[i].Fn.String(), out[j].Fn.String(); a != b {
			return a < b
		}
		return out[i].Kind < out[j].Kind
	})
	return out
}

// Notes returns constructs that were treated without precision.
func (e *Engine) Notes() map[string]int { return e.notes }

func (e *Engine) note(format string, args ...interface{}) {
	e.notes[fmt.Sprintf(format, args...)]++
}

func (e *Engine) Stats() string {
	return fmt.Sprintf("%d instructions, %d joins, %d LPs, %d calls, %d loop passes, %d symbols", e.stats.instrs, e.stats.joins, e.stats.lp, e.stats.calls, e.stats.passes, len(e.syms))
}

func (e *Engine) subCtx(parent int, at ssa.Instruction) int {
	k := ctxKey{parent, at}
	c, ok := e.ctxMemo[k]
	if !ok {
		c = len(e.ctxs)
		e.ctxs = append(e.ctxs, k)
		e.ctxMemo[k] = c
	}
	return c
}

func (e *Engine) ctxStr(c int) string {
	s := ""
	for c != 0 {
		k := e.ctxs[c]
		if k.at != nil {
			p := e.Fset.Position(k.at.Pos())
			s = fmt.Sprintf("%s:%d > ", shortFile(p.Filename), p.Line) + s
		}
		c = k.parent
	}
	return s
}

func shortFile(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

// prodOfSyms names the product of two symbols.
func (e *Engine) prodOfSyms(x, y Sym) Sym {
	if x > y {
		x, y = y, x
	}
	key := [2]Sym{x, y}
	s, ok := e.prods[key]
	if !ok {
		s = e.newSym("("+e.symName(x)+"*"+e.symName(y)+")", topItv)
		e.prods[key] = s
		if e.stable[x] && e.stable[y] {
			e.stable[s] = true
		}
		e.prodOf[s] = key
	}
	return s
}

func (e *Engine) newSym(name string, rng itv) Sym {
	e.syms = append(e.syms, symInfo{name, rng})
	return Sym(len(e.syms) - 1)
}

func (e *Engine) symName(s Sym) string {
	if n := e.syms[s].name; n != "" {
		return fmt.Sprintf("%s#%d", n, s)
	}
	return fmt.Sprintf("s%d", s)
}

// sym returns the symbol created at a site.
func (e *Engine) sym(k memoKey, rng itv) Sym {
	s, ok := e.symMemo[k]
	if !ok {
		n := k.tag
		if v, isv := k.at.(ssa.Value); isv {
			n = v.Name() + k.tag
		}
		s = e.newSym(n, rng)
		e.symMemo[k] = s
		if at, p := k.at.(pureAt); p {
			e.stable[s] = true
			if e.pureSyms[string(at)] == nil {
				e.pureSyms[string(at)] = map[string]Sym{}
			}
			e.pureSyms[string(at)][k.tag] = s
		}
	} else if e.syms[s].rng != rng {
		k.tag += " in " + rng.String()
		return e.sym(k, rng)
	}
	return s
}

func (e *Engine) refAt(k memoKey) RefID {
	r, ok := e.refMemo[k]
	if !ok {
		e.nref++
		r = e.nref
		e.refMemo[k] = r
	}
	return r
}

func (e *Engine) verAt(k memoKey) int {
	v, ok := e.verMemo[k]
	if !ok {
		e.nver++
		v = e.nver
		e.verMemo[k] = v
	}
	return v
}

func (e *Engine) objAt(k memoKey, name string, t types.Type) ObjID {
	o, ok := e.objMemo[k]
	if !ok {
		o = ObjID(len(e.objs))
		e.objs = append(e.objs, objInfo{name: name, typ: t})
		e.objMemo[k] = o
	}
	return o
}

func (e *Engine) objName(o ObjID) string { return e.objs[o].name }

func (e *Engine) phiSym(site siteKey, slot string) Sym {
	s := e.sym(memoKey{site.ctx, site.at, site.kind + "φ" + slot}, topItv)
	e.phiOf[s] = site
	return s
}

func (e *Engine) phiRef(site siteKey, slot string) RefID {
	r := e.refAt(memoKey{site.ctx, site.at, site.kind + "φ" + slot})
	e.phiRefOf[r] = site
	return r
}

func (e *Engine) phiVer(site siteKey, slot string) int {
	v := e.verAt(memoKey{site.ctx, site.at, site.kind + "φ" + slot})
	e.phiVerOf[v] = site
	return v
}

// Abandon ends an analysis that did not come to an end: only what was settled
// outside of any loop still being analysed counts.
func (e *Engine) Abandon() {
	if e.root != nil {
		e.obl = e.root
	}
}
