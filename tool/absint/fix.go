package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop.
type loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
}

// fnData holds per-function facts.
type fnData struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	num     map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loop // by head
	inner   map[*ssa.BasicBlock]*loop // innermost loop of a block
	liveIn  []map[ssa.Value]bool      // by block index
	liveOut []map[ssa.Value]bool
	flag    map[ssa.Value]bool // integer φs that only hold a few constants
	unr     map[ssa.Value]bool // counters of loops to unroll
	neg     map[ssa.Value]bool // φs of a value and its negation
	consts  []int64
	reduc   bool
	reached map[*ssa.BasicBlock]bool
}

func (e *Engine) data(fn *ssa.Function) *fnData {
	if d := e.fnInfo[fn]; d != nil {
		return d
	}
	d := &fnData{fn: fn, num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{},
		flag: map[ssa.Value]bool{}, unr: map[ssa.Value]bool{}, neg: map[ssa.Value]bool{}, reduc: true, reached: map[*ssa.BasicBlock]bool{}}
	e.fnInfo[fn] = d
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		d.num[post[i]] = len(d.rpo)
		d.rpo = append(d.rpo, post[i])
	}
	for _, b := range d.rpo {
		for _, s := range b.Succs {
			if d.num[s] > d.num[b] {
				continue
			}
			if !s.Dominates(b) {
				d.reduc = false
				continue
			}
			l := d.loops[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				d.loops[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] || !seen[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, b := range d.rpo {
		for _, l := range d.loops {
			if l.body[b] {
				if in := d.inner[b]; in == nil || len(l.body) < len(in.body) {
					d.inner[b] = l
				}
			}
		}
	}
	for _, l := range d.loops {
		for _, m := range d.loops {
			if m != l && m.body[l.head] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	d.liveness()
	d.flags()
	un := e.Unroll != nil && e.Unroll(fn)
	table := false
	for _, l := range d.loops {
		table = table || l.table()
	}
	if un || table || e.Paths != nil {
		for _, l := range d.loops {
			if un && l.parent != nil {
				continue
			}
			if !un && e.Paths == nil && !l.table() {
				continue
			}
			mark := d.unr
			if un || l.table() {
				mark = d.flag
			}
			for _, in := range l.head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				_, isInt := intRange(ph.Type())
				if !isInt && !un && e.Paths != nil {
					// a slice that is consumed
					_, isInt = ph.Type().Underlying().(*types.Slice)
				}
				if isInt {
					mark[ph] = true
					for _, ed := range ph.Edges {
						if tracked(ed) {
							mark[ed] = true
						}
					}
				}
			}
		}
	}
	cs := map[int64]bool{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(ops[:0]) {
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if i, ok := constant.Int64Val(c.Value); ok {
						cs[i], cs[i-1], cs[i+1] = true, true, true
						cs[-i], cs[-i-1], cs[-i+1] = true, true, true
					}
				}
			}
		}
	}
	for _, t := range thresholds {
		cs[t] = true
	}
	for c := range cs {
		d.consts = append(d.consts, c)
	}
	sort.Slice(d.consts, func(i, j int) bool { return d.consts[i] < d.consts[j] })
	return d
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (d *fnData) liveness() {
	n := len(d.fn.Blocks)
	d.liveIn = make([]map[ssa.Value]bool, n)
	d.liveOut = make([]map[ssa.Value]bool, n)
	for i := range d.liveIn {
		d.liveIn[i] = map[ssa.Value]bool{}
		d.liveOut[i] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for changed := true; changed; {
		changed = false
		for k := len(d.rpo) - 1; k >= 0; k-- {
			b := d.rpo[k]
			out := d.liveOut[b.Index]
			for _, s := range b.Succs {
				for v := range d.liveIn[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := predIndex(b, s)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, p := range s.Preds {
						if p == b {
							if v := ph.Edges[i]; tracked(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
				_ = pi
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue // φs stay in liveIn when used
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(ops[:0]) {
					if tracked(*op) {
						live[*op] = true
					}
				}
			}
			lin := d.liveIn[b.Index]
			for v := range live {
				if !lin[v] {
					lin[v] = true
					changed = true
				}
			}
		}
	}
}

func predIndex(b, s *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// liveAfter returns the values used after instruction i of block b.
func (d *fnData) liveAfter(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for v := range d.liveOut[b.Index] {
		live[v] = true
	}
	var ops []*ssa.Value
	for k := len(b.Instrs) - 1; k > i; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range in.Operands(ops[:0]) {
			if tracked(*op) {
				live[*op] = true
			}
		}
	}
	return live
}

func (d *fnData) flags() {
	for _, b := range d.fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, isInt := intRange(ph.Type()); !isInt {
				continue
			}
			seen := map[ssa.Value]bool{}
			vals := map[string]bool{}
			good := true
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				switch x := v.(type) {
				case *ssa.Const:
					vals[x.Value.ExactString()] = true
				case *ssa.Phi:
					if !seen[x] {
						seen[x] = true
						for _, ed := range x.Edges {
							walk(ed)
						}
					}
				default:
					good = false
				}
			}
			walk(ph)
			if good && len(vals) <= 4 {
				d.flag[ph] = true
			}
			if len(ph.Edges) == 2 {
				for i := range ph.Edges {
					if u, ok := ph.Edges[i].(*ssa.UnOp); ok && u.Op.String() == "-" && u.X == ph.Edges[1-i] {
						d.neg[ph] = true
					}
				}
			}
		}
	}
}

// pass is one traversal of a region.
type pass struct {
	d     *fnData
	ctx   int
	loop  *loop
	pend  map[*ssa.BasicBlock][]pendState
	back  []pendState
	exits map[*ssa.BasicBlock][]pendState
	rets  []*State
	open  bool           // paths were split on whether to enter the loop once more
	taken map[string]int // branches taken at the loop head, for each state there
}

type pendState struct {
	pred int // index among the block's predecessors, -1 at entry
	st   *State
	k    string // partition by how the block was entered
}

// maxGroups bounds the number of disjuncts per program point.
const maxGroups = 8

// pathGroups is the bound where paths are kept apart.
const pathGroups = 1 << 13

// table reports whether the loop calls functions listed in an array or slice.
func (l *loop) table() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
				continue
			}
			if ld, ok := c.Call.Value.(*ssa.UnOp); ok {
				if _, ok := ld.X.(*ssa.IndexAddr); ok {
					return true
				}
			}
			if _, ok := c.Call.Value.(*ssa.Index); ok {
				return true
			}
		}
	}
	return false
}

// maxUnroll is how often a loop is unrolled where paths are kept apart.
const maxUnroll = 24

func groupLimit(sts []*State) int {
	for _, s := range sts {
		if s.trace != "" {
			return pathGroups
		}
	}
	return maxGroups
}

// runFn runs a function on the given entry states; the callee's frame is on
// top. The results have ret set and the frame popped.
func (e *Engine) runFn(fn *ssa.Function, entry []*State) []*State {
	d := e.data(fn)
	if !d.reduc {
		panic("irreducible control flow in " + fn.String())
	}
	if len(entry) == 0 {
		return nil
	}
	p := &pass{d: d, ctx: entry[0].top().ctx, pend: map[*ssa.BasicBlock][]pendState{}, exits: map[*ssa.BasicBlock][]pendState{}}
	for _, s := range entry {
		p.pend[fn.Blocks[0]] = append(p.pend[fn.Blocks[0]], pendState{-1, s, ""})
	}
	e.depth++
	e.runRegion(p, fn.Blocks[0])
	e.depth--
	if len(p.rets) <= 1 {
		return p.rets
	}
	return e.mergeGroups(p.rets, siteKey{p.ctx, fn, "ret"}, fn.Signature.Results())
}

func (e *Engine) runRegion(p *pass, from *ssa.BasicBlock) {
	d := p.d
	for k := d.num[from]; k < len(d.rpo); k++ {
		b := d.rpo[k]
		if p.loop != nil && !p.loop.body[b] {
			continue
		}
		in := p.pend[b]
		delete(p.pend, b)
		if len(in) == 0 {
			continue
		}
		l := d.inner[b]
		if l != nil && l.head == b && l != p.loop {
			e.runLoop(p, l, in)
			continue
		}
		if l != p.loop {
			// inside an inner loop: reached only through its head
			panic("block of an inner loop reached from outside")
		}
		states := e.gather(d, b, in)
		e.execBlock(p, b, states)
	}
}

// enter assigns φs and drops dead registers.
func (e *Engine) enter(d *fnData, b *ssa.BasicBlock, ps pendState) *State {
	st := ps.st
	f := st.top()
	if ps.pred >= 0 {
		type asg struct {
			v ssa.Value
			x Val
		}
		var as []asg
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if d.liveIn[b.Index][ph] {
				as = append(as, asg{ph, e.value(st, ph.Edges[ps.pred])})
			}
		}
		for _, a := range as {
			f.regs[a.v] = a.x
		}
	}
	live := d.liveIn[b.Index]
	for v := range f.regs {
		if !live[v] {
			delete(f.regs, v)
		}
	}
	return st
}

// gather merges the states arriving at b.
func (e *Engine) gather(d *fnData, b *ssa.BasicBlock, in []pendState) []*State {
	var sts []*State
	for _, ps := range in {
		sts = append(sts, e.enter(d, b, ps))
	}
	if len(sts) == 1 {
		return sts
	}
	return e.mergeGroups(sts, siteKey{sts[0].top().ctx, b, "join"}, nil)
}

// mergeGroups joins states with equal partition keys.
func (e *Engine) mergeGroups(sts []*State, site siteKey, sig *types.Tuple) []*State {
	for level := 0; ; level++ {
		keys := make([]string, len(sts))
		n := map[string]bool{}
		for i, s := range sts {
			if s.num.bot {
				continue
			}
			keys[i] = e.partKey(s, level)
			if sig != nil && level < 2 {
				keys[i] += retKey(s, sig)
			}
			n[keys[i]] = true
		}
		if len(n) > 2*groupLimit(sts) && level < 2 {
			if e.Debug && level == 1 {
				fmt.Println("too many groups at", site.at, n)
			}
			continue
		}
		var order []string
		groups := map[string]*State{}
		for i, s := range sts {
			if s.num.bot {
				continue
			}
			k := keys[i]
			if g := groups[k]; g != nil {
				groups[k] = e.join(g, s, site, false)
				e.stats.joins++
			} else {
				groups[k] = s
				order = append(order, k)
			}
		}
		var out []*State
		for _, k := range order {
			out = append(out, groups[k])
		}
		return out
	}
}

var errorType = types.Universe.Lookup("error").Type()

// partKey tells which states are kept apart.
// Level 1 ignores the heap, level 2 keeps nothing apart.
func (e *Engine) partKey(st *State, level int) string {
	if level >= 2 {
		return ""
	}
	var parts []string
	if st.trace != "" {
		parts = append(parts, st.trace)
	}
	if st.gtag != "" {
		parts = append(parts, st.gtag)
	}
	if e.touch && st.touch != "" && st.touch != "?" && e.pathsOn(st) {
		parts = append(parts, "t"+st.touch)
	}
	for _, id := range st.sortedObjs() {
		o := st.heap[id]
		parts = ghostKey(parts, id, o.V)
		// a flag of the driver
		if b, ok := o.V.(VBool); ok && !o.Weak && (b.C.K == cTrue || b.C.K == cFalse) && strings.Contains(e.objName(id), ".verif") {
			parts = append(parts, fmt.Sprintf("o%d=%v", id, b.C.K == cTrue))
		}
	}
	paths := e.pathsOn(st) && !e.Flat
	for i, f := range st.frames {
		d := e.data(f.fn)
		if f.gtag != "" {
			parts = append(parts, fmt.Sprintf("%dg%s", i, f.gtag))
		}
		for v, x := range f.regs {
			s := ""
			switch y := x.(type) {
			case VBool:
				if y.C.K == cTrue {
					s = "T"
				} else if y.C.K == cFalse {
					s = "F"
				}
			case VRef:
				if types.Identical(v.Type(), errorType) {
					s = nilMark(st, y.R)
				} else {
					s = soleObj(st, v.Type(), y.R)
				}
			case VInt:
				if d.flag[v] || paths && d.unr[v] && e.open[f.fn] == 0 {
					if c, ok := st.num.red(y.L).isConst(); ok {
						s = fmt.Sprint(c)
					}
				} else if d.neg[v] {
					s = "d" + y.L.key()
				}
			case VSlice:
				if paths && d.unr[v] && e.open[f.fn] == 0 {
					if c, ok := st.num.red(y.Len).isConst(); ok {
						s = fmt.Sprint(c)
						if c, ok := st.num.red(y.Off).isConst(); ok {
							s += fmt.Sprint("@", c)
						}
					}
				}
			case VAgg:
				if t, ok := v.Type().(*types.Tuple); ok {
					for q := 0; q < t.Len(); q++ {
						s += keyOf(st, t.At(q).Type(), y.F[q])
					}
				}
			}
			if s != "" {
				parts = append(parts, fmt.Sprintf("%d%s=%s", i, v.Name(), s))
			}
		}
	}
	if level == 0 {
		for id, o := range st.heap {
			a, ok := o.V.(VAgg)
			if o.Weak || !ok {
				continue
			}
			for i, f := range a.F {
				if sl, ok := f.(VSlice); ok {
					if c, ok := st.num.red(sl.Len).isConst(); ok && c == 0 {
						parts = append(parts, fmt.Sprintf("o%d.%d=0", id, i))
					}
				}
			}
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, " ")
}

func (e *Engine) pathsOn(st *State) bool { return e.Paths != nil && e.Paths(st.frames) }

func ghostKey(parts []string, id ObjID, v Val) []string {
	switch x := v.(type) {
	case VAgg:
		for _, f := range x.F {
			parts = ghostKey(parts, id, f)
		}
	case VArr:
		if x.Gh != nil {
			s := fmt.Sprintf("o%dw%d", id, x.Gh.N)
			if x.Gh.P {
				s += "p"
			}
			parts = append(parts, s)
		}
	}
	return parts
}

func nilMark(st *State, r RefID) string {
	switch st.info(r).Nil {
	case yes:
		return "n"
	case no:
		return "e"
	}
	return ""
}

// soleObj names the only object a pointer may refer to.
func soleObj(st *State, t types.Type, r RefID) string {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return ""
	}
	i := st.info(r)
	if i.Nil == no && !i.Unk && len(i.Tg) == 1 && i.Tg[0].Path == "" {
		return fmt.Sprintf("o%d", i.Tg[0].Obj)
	}
	return ""
}

func keyOf(st *State, t types.Type, v Val) string {
	switch y := v.(type) {
	case VBool:
		if y.C.K == cTrue {
			return "T"
		} else if y.C.K == cFalse {
			return "F"
		}
	case VRef:
		if types.Identical(t, errorType) {
			return nilMark(st, y.R)
		}
		return soleObj(st, t, y.R) + "."
	}
	return "-"
}

func retKey(st *State, sig *types.Tuple) string {
	if sig.Len() == 1 {
		return keyOf(st, sig.At(0).Type(), st.ret)
	}
	a, ok := st.ret.(VAgg)
	if !ok {
		return ""
	}
	s := ""
	for i := 0; i < sig.Len(); i++ {
		s += keyOf(st, sig.At(i).Type(), a.F[i])
	}
	return s
}

// execBlock runs the instructions of b on the states.
// checkBudget gives up when the analysis takes more than a check may.
func (e *Engine) checkBudget() {
	if e.blocks++; e.blocks%64 != 0 {
		return
	}
	if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
		panic("it takes too long")
	}
	if e.blocks%8192 == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 16<<30 {
			panic("it takes too much memory")
		}
	}
}

func (e *Engine) execBlock(p *pass, b *ssa.BasicBlock, sts []*State) {
	d := p.d
	e.checkBudget()
	if len(sts) > 0 {
		d.reached[b] = true
	}
	for i, in := range b.Instrs {
		if len(sts) == 0 {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range sts {
				c, ok := e.value(s, x.Cond).(VBool)
				if !ok {
					c = VBool{condUnk}
				}
				if e.pathsOn(s) && (!e.Flat || e.loops == 0) {
					e.splitPaths(p, b, x, s, c.C)
					continue
				}
				for k := 0; k < 2; k++ {
					t := s
					cc := c.C
					if k == 0 {
						t = s.clone()
					} else {
						cc = cc.not()
					}
					t.assume(cc)
					if !t.num.bot {
						if cr, ok := t.top().regs[x.Cond]; ok && cr != nil {
							if k == 0 {
								t.top().regs[x.Cond] = VBool{condTrue}
							} else {
								t.top().regs[x.Cond] = VBool{condFalse}
							}
						}
						e.edge(p, b, b.Succs[k], t, k)
					}
				}
			}
			return
		case *ssa.Jump:
			for _, s := range sts {
				e.edge(p, b, b.Succs[0], s, 0)
			}
			return
		case *ssa.Return:
			for _, s := range sts {
				switch len(x.Results) {
				case 0:
					s.ret = VAgg{}
				case 1:
					s.ret = e.value(s, x.Results[0])
				default:
					a := VAgg{}
					for _, r := range x.Results {
						a.F = append(a.F, e.value(s, r))
					}
					s.ret = a
				}
				s.gtag = s.top().gtag
				s.frames = s.frames[:len(s.frames)-1]
				s.gc(e)
				p.rets = append(p.rets, s)
			}
			if len(p.rets) > 4 {
				p.rets = e.mergeGroups(p.rets, siteKey{p.ctx, d.fn, "ret"}, d.fn.Signature.Results())
			}
			return
		case *ssa.Panic:
			for _, s := range sts {
				e.oblige(s, x, "panic", false, func() string { return "reachable panic" })
			}
			return
		case *ssa.Call:
			e.stats.instrs++
			sts = e.callAll(d, b, i, x, sts)
			continue
		}
		var out []*State
		for _, s := range sts {
			for _, t := range e.execInstr(s, in) {
				if !t.num.bot {
					out = append(out, t)
				}
			}
		}
		sts = out
	}
}

// splitPaths takes both branches and remembers which was taken.
func (e *Engine) splitPaths(p *pass, b *ssa.BasicBlock, x *ssa.If, s *State, c *Cond) {
	t := s.clone()
	t.assume(c)
	s.assume(c.not())
	both := !t.num.bot && !s.num.bot
	for k, u := range []*State{t, s} {
		if u.num.bot {
			continue
		}
		if cr, ok := u.top().regs[x.Cond]; ok && cr != nil {
			u.top().regs[x.Cond] = VBool{[]*Cond{condTrue, condFalse}[k]}
		}
		if p.loop != nil && b == p.loop.head {
			p.taken[s.group] |= 1 << k
			p.open = p.open || both || e.Iter && p.taken[s.group] == 3
		}
		if both {
			u.trace += "TF"[k : k+1]
			u.hist = &hist{x.Cond.Pos(), [...]string{"yes", "no"}[k], u.hist}
		}
		e.edge(p, b, b.Succs[k], u, k)
	}
}

func (e *Engine) edge(p *pass, from, to *ssa.BasicBlock, st *State, succ int) {
	// which of to's predecessor slots is this edge?
	n := 0
	for k := 0; k < succ; k++ {
		if from.Succs[k] == to {
			n++
		}
	}
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			if n == 0 {
				pi = i
				break
			}
			n--
		}
	}
	ps := pendState{pi, st, ""}
	if p.loop != nil {
		if to == p.loop.head {
			p.back = append(p.back, ps)
			return
		}
		if !p.loop.body[to] {
			p.exits[to] = append(p.exits[to], ps)
			return
		}
	}
	p.pend[to] = append(p.pend[to], ps)
}

// runLoop computes an invariant for l and then passes on the loop's exits.
func (e *Engine) runLoop(p *pass, l *loop, in []pendState) {
	d := p.d
	entries := e.gather(d, l.head, in)
	if len(entries) == 0 {
		return
	}
	site := siteKey{entries[0].top().ctx, l.head, "loop"}
	H := map[string]*State{}
	var order []string
	level := 0
	for _, s := range entries {
		s.gtag, s.touch = "", "?"
		k := e.partKey(s, 0)
		if g := H[k]; g != nil {
			H[k] = e.join(g, s, siteKey{site.ctx, site.at, "loopin"}, false)
			continue
		}
		H[k] = s
		order = append(order, k)
	}
	keep := map[Sym]bool{}
	for _, s := range entries {
		s.liveSyms(keep)
	}
	for k := range keep {
		e.keep[k]++
	}
	defer func() {
		for k := range keep {
			e.keep[k]--
		}
	}()
	e.loops++
	defer func() { e.loops-- }()
	coarse := false
	saved := e.obl
	run := func(H map[string]*State, order []string) (*pass, *oblSet) {
		e.obl = newOblSet()
		c := &pass{d: d, ctx: p.ctx, loop: l, pend: map[*ssa.BasicBlock][]pendState{}, exits: map[*ssa.BasicBlock][]pendState{}, taken: map[string]int{}}
		var sts []*State
		for _, k := range order {
			s := H[k].clone()
			s.group = k
			sts = append(sts, s)
		}
		e.stats.passes++
		e.execBlock(c, l.head, sts)
		e.runRegion(c, l.head)
		o := e.obl
		e.obl = saved
		return c, o
	}
	commit := func(c *pass, o *oblSet) {
		e.obl.merge(o)
		for b, xs := range c.exits {
			for _, x := range xs {
				switch {
				case p.loop != nil && b == p.loop.head:
					p.back = append(p.back, x)
				case p.loop != nil && !p.loop.body[b]:
					p.exits[b] = append(p.exits[b], x)
				default:
					p.pend[b] = append(p.pend[b], x)
				}
			}
		}
		p.rets = append(p.rets, c.rets...)
	}
	// regroup coarsens the partition of H until few groups are left.
	regroup := func(H map[string]*State, order []string) []string {
		lim := maxGroups
		for _, s := range H {
			if s.trace != "" {
				lim = pathGroups
			}
		}
		for len(order) > lim && level < 2 {
			level++
			var no []string
			N := map[string]*State{}
			for _, q := range order {
				k := e.partKey(H[q], level)
				if g := N[k]; g != nil {
					N[k], _ = e.joinStates(g, H[q], site, true, false, false, nil)
				} else {
					N[k] = H[q]
					no = append(no, k)
				}
			}
			for q := range H {
				delete(H, q)
			}
			for k, v := range N {
				H[k] = v
			}
			order = no
		}
		return order
	}
	it, iter := 0, false
	merge := func(H map[string]*State, order []string, c *pass, widen, strict bool) ([]string, bool) {
		changed := false
		for _, ps := range c.back {
			s := e.enter(d, l.head, pendState{ps.pred, ps.st.clone(), ""})
			s.gtag, s.touch = "", "?"
			if iter {
				s.trace = entryTrace(entries, s.trace) + "*"
			}
			e.renameHead(s, site)
			k := e.partKey(s, level)
			if e.Trace != "" && strings.Contains(d.fn.String(), e.Trace) {
				fmt.Printf("-- back %q\n%s", k, e.Dump(s))
			}
			h := H[k]
			if h == nil {
				H[k] = e.freshen(s, site, k, entries)
				order = regroup(H, append(order, k))
				changed = true
				continue
			}
			th := d.consts
			if coarse {
				th = thresholds
			}
			e.hard = it > 20
			n, ch := e.joinStates(h, s, site, true, widen, strict, th)
			e.hard = false
			e.stats.joins++
			if ch && it > 16 && e.Dump(h) == e.Dump(n) {
				continue // the same facts in another shape
			}
			if ch {
				H[k] = n
				changed = true
			}
		}
		return order, changed
	}
	widened := false
	first := append([]string(nil), order...)
	init := map[string]*State{}
	for k, v := range H {
		init[k] = v
	}
	flatten := len(entries) > 0 && e.pathsOn(entries[0]) && !e.Flat
	for ; ; it++ {
		coarse = it >= 8 // the constants of a big function are too many to step through
		c, o := run(H, order)
		if flatten && (c.open || it >= maxUnroll) {
			// the number of iterations is not known or large: do not keep them apart
			flatten = false
			if e.Iter {
				iter = true
				e.open[d.fn]++
				defer func() { e.open[d.fn]-- }()
			} else {
				e.Flat = true
				defer func() { e.Flat = false }()
			}
			H, order, it, level = init, first, -1, 0
			continue
		}
		if e.Trace != "" && strings.Contains(d.fn.String(), e.Trace) {
			fmt.Printf("== %s loop b%d pass %d: %d groups, %d back\n", d.fn.Name(), l.head.Index, it, len(order), len(c.back))
			for _, k := range order {
				fmt.Printf("-- key %q\n%s", k, e.Dump(H[k]))
			}
		}
		var changed bool
		prev := map[string]*State{}
		for k, v := range H {
			prev[k] = v
		}
		order, changed = merge(H, order, c, it >= 2, it >= 6)
		if changed && it > 12 && len(H) == len(prev) {
			// taken together the changes may cancel out
			changed = false
			for k, v := range H {
				changed = changed || prev[k] == nil || prev[k] != v && e.Dump(prev[k]) != e.Dump(v)
			}
		}
		if it >= 2 {
			widened = widened || changed
		}
		if !changed {
			if widened {
				// one descending step
				N := map[string]*State{}
				var no []string
				for _, s := range entries {
					k := e.partKey(s, level)
					if N[k] == nil {
						N[k] = s
						no = append(no, k)
					} else {
						N[k], _ = e.joinStates(N[k], s, site, true, false, false, nil)
					}
				}
				lv := level
				no, _ = merge(N, no, c, false, false)
				if level == lv {
					c2, o2 := run(N, no)
					M := map[string]*State{}
					for k, v := range N {
						M[k] = v
					}
					if _, ch := merge(M, no, c2, false, false); !ch {
						c, o = c2, o2
					}
				}
			}
			e.loopDone(d, l, c, site)
			commit(c, o)
			return
		}
		if it > 60 {
			panic(fmt.Sprintf("loop at %s does not stabilise", e.pos(firstPos(l.head))))
		}
	}
}

// entryTrace returns what the entry states' traces contribute to a trace.
func entryTrace(entries []*State, t string) string {
	best := ""
	for _, s := range entries {
		if len(s.trace) > len(best) && strings.HasPrefix(t, s.trace) {
			best = s.trace
		}
	}
	return best
}

// freshen renames what s does not share with the loop's entry states, so that
// running the body again cannot confuse it with what the body creates.
func (e *Engine) freshen(s *State, site siteKey, key string, entries []*State) *State {
	s = s.clone()
	s.gc(e)
	live := map[Sym]bool{}
	s.liveSyms(live)
	s.num.project(live)
	keep := map[Sym]bool{}
	keepR := map[RefID]bool{}
	for _, x := range entries {
		x.liveSyms(keep)
		for r := range x.refs {
			keepR[r] = true
		}
	}
	m := map[Sym]Sym{}
	add := func(x Sym) {
		if _, prod := e.prodOf[x]; prod {
			return // renamed along with its factors
		}
		if !keep[x] && e.symGlobal(x) == false {
			m[x] = e.sym(memoKey{site.ctx, [2]interface{}{site.at, x}, "fr" + key}, e.syms[x].rng)
		}
	}
	for x := range live {
		add(x)
	}
	s.num.eachSym(add)
	s.renameSyms(m)
	s.remap(&leafMap{lin: idLin, ref: func(r RefID) RefID {
		if r == 0 || keepR[r] {
			return r
		}
		return e.refAt(memoKey{site.ctx, [2]interface{}{site.at, r}, "fr" + key})
	}, ver: func(v int) int {
		if v == 0 {
			return 0
		}
		return e.verAt(memoKey{site.ctx, [2]interface{}{site.at, v}, "frv" + key})
	}})
	return s
}

// symGlobal reports whether x names a constant.
func (e *Engine) symGlobal(x Sym) bool { return e.constSym[x] || e.stable[x] }

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return b.Instrs[0]
}

// renameHead gives the loop's own φ symbols and references of the previous
// iteration temporary names, so that they can be introduced again.
func (e *Engine) renameHead(s *State, site siteKey) {
	m := map[Sym]Sym{}
	used := map[Sym]bool{}
	s.liveSyms(used)
	for x := range used {
		if e.phiOf[x] == site {
			m[x] = e.tmpSym(x)
		}
	}
	s.num.eachSym(func(x Sym) {
		if e.phiOf[x] == site {
			m[x] = e.tmpSym(x)
		}
	})
	s.renameSyms(m)
	rm := map[RefID]RefID{}
	for r := range s.refs {
		if e.phiRefOf[r] == site {
			rm[r] = e.tmpRef(r)
		}
	}
	vm := func(v int) int {
		if e.phiVerOf[v] == site {
			return e.verAt(memoKey{0, v, "tmpver"})
		}
		return v
	}
	s.remap(&leafMap{lin: idLin, ref: func(r RefID) RefID {
		if q, ok := rm[r]; ok {
			return q
		}
		return r
	}, ver: vm})
}

func (e *Engine) tmpSym(s Sym) Sym {
	return e.sym(memoKey{0, s, "tmp"}, topItv)
}

func (e *Engine) tmpRef(r RefID) RefID { return e.refAt(memoKey{0, r, "tmpref"}) }

func (p *Poly) eachSym(f func(Sym)) {
	for s, l := range p.eqs {
		f(s)
		for _, t := range l.t {
			f(t.s)
		}
	}
	for s := range p.box {
		f(s)
	}
	for _, c := range p.cons {
		for _, t := range c.t {
			f(t.s)
		}
	}
}

// loopDone is called with the final pass over a loop.
func (e *Engine) loopDone(d *fnData, l *loop, c *pass, site siteKey) {}

// Dump renders a state.
func (e *Engine) Dump(st *State) string {
	var sb strings.Builder
	for i, f := range st.frames {
		fmt.Fprintf(&sb, "  frame %d %s\n", i, f.fn.Name())
		for _, k := range sortedRegs(f.regs) {
			fmt.Fprintf(&sb, "    %s = %s\n", k.Name(), e.valStr(f.regs[k]))
		}
	}
	for _, o := range st.sortedObjs() {
		fmt.Fprintf(&sb, "  o%d %s weak=%v: %s\n", o, e.objName(o), st.heap[o].Weak, e.valStr(st.heap[o].V))
	}
	var rs []int
	for r := range st.refs {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		fmt.Fprintf(&sb, "  r%d: %s\n", r, e.infoStr(st.refs[RefID(r)]))
	}
	if st.ret != nil {
		fmt.Fprintf(&sb, "  ret %s\n", e.valStr(st.ret))
	}
	for _, s := range st.num.sortedEqs() {
		fmt.Fprintf(&sb, "  %s = %s\n", e.symName(s), e.linStr(st.num.eqs[s]))
	}
	for _, c := range st.num.sortedCons() {
		fmt.Fprintf(&sb, "  %s >= 0\n", e.linStr(c))
	}
	var bs []int
	for s := range st.num.box {
		bs = append(bs, int(s))
	}
	sort.Ints(bs)
	for _, s := range bs {
		fmt.Fprintf(&sb, "  %s in %s\n", e.symName(Sym(s)), st.num.box[Sym(s)])
	}
	var fs []string
	for f, v := range st.facts {
		fs = append(fs, fmt.Sprintf("  %v: %s\n", v, f))
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, "") + "  trace " + st.trace + "\n")
	for _, l := range st.num.ne {
		fmt.Fprintf(&sb, "  %s != 0\n", e.linStr(l))
	}
	return sb.String()
}
