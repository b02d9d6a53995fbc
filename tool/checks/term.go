package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination (P05): every natural loop needs a counter that moves on every
// iteration towards the bound of a test made on every iteration, and every
// cycle of calls an argument that does.

func init() {
	register("P05", "other", func(c *Ctx) {
		c.Res.Rule = "every loop of the packages that parse, query, load and hint either ranges over something finite or has a test, made on every iteration, of a value that moves by at least one towards an unchanging bound along every path through the loop; every cycle of calls passes an argument that does the same or a flag that forbids a second call"
		c.Res.Explanation = "Ranking functions over SSA. For each natural loop, the exit tests that dominate every way round it are the candidates; a dataflow over the loop computes how much each path changes the tested value, through nested loops, helpers, fields and multiple assignments. A loop whose tests compare plain values and which none of them bounds is the violation; one whose tests are not understood is reported undecided."
		t := &term{c: c, cg: newCallGraph(c)}
		for _, f := range c.libFuncs() {
			if p := fnPkg(f); p != pkgTT && p != pkgRoot {
				continue
			}
			c.Res.Fn(fname(f))
			t.loops(f)
		}
		t.recursion()
		c.Res.Assumptions = append(c.Res.Assumptions, "64 bit counters do not wrap around; a 32 bit counter compared with <= does not reach the largest value", "memory tested by a loop is reached through one path", "the rasterizer's curve subdivision and cell lists are not covered")
	})
}

type term struct {
	c  *Ctx
	cg *callGraph

	phi    int
	every  bool // the test at hand is made on every iteration
	unsure bool // the loop at hand counts in a way that is not decided here
}

type natLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	latch []*ssa.BasicBlock
}

// naturalLoops finds f's loops; ok is false if the flow graph is irreducible.
func naturalLoops(f *ssa.Function) (out []*natLoop, ok bool) {
	ok = true
	by := map[*ssa.BasicBlock]*natLoop{}
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				if !s.Dominates(b) {
					ok = false
					continue
				}
				l := by[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					out = append(out, l)
				}
				l.latch = append(l.latch, b)
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for _, l := range out {
		work := append([]*ssa.BasicBlock(nil), l.latch...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.body[b] {
				continue
			}
			l.body[b] = true
			work = append(work, b.Preds...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out, ok
}

func (l *natLoop) everyIteration(b *ssa.BasicBlock) bool {
	for _, x := range l.latch {
		if !b.Dominates(x) {
			return false
		}
	}
	return l.body[b]
}

func (t *term) loops(f *ssa.Function) {
	ls, ok := naturalLoops(f)
	if !ok {
		t.c.Res.Undecide("%s jumps into a loop", fname(f))
		return
	}
	for _, l := range ls {
		t.c.Res.Count("loops", 1)
		why, ok, understood := t.rank(l)
		pos := t.loopPos(l)
		switch {
		case ok:
			t.c.Res.OK("%s: loop at %s: %s", fname(f), pos, why)
		case !understood:
			t.c.Res.Undecide("%s: loop at %s: its tests are not understood", fname(f), pos)
		default:
			t.c.Res.Bad("unbounded loop "+fname(f), pos, "no value tested on every iteration moves towards a bound on every path through this loop: %s", why)
		}
	}
}

func (t *term) loopPos(l *natLoop) string {
	best := token.NoPos
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				if _, phi := in.(*ssa.Phi); !phi {
					best = p
				}
			}
		}
	}
	if best == token.NoPos {
		best = l.head.Parent().Pos()
	}
	return t.c.P.Pos(best)
}

// rank looks for a ranking argument for l.
func (t *term) rank(l *natLoop) (why string, ok, understood bool) {
	t.unsure = false
	defer func() {
		if t.unsure {
			understood = false
		}
	}()
	understood = true
	var fails []string
	// a slice that shrinks, and ranging over maps and strings
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			_ = n
			return "ranges over a map or string", true, true
		}
		if p, ok := in.(*ssa.Phi); ok {
			if _, sl := p.Type().Underlying().(*types.Slice); sl {
				if t.vectorStep(l, []*ssa.Phi{p}, []int{1}, nil) {
					return "a slice gets shorter", true, true
				}
			}
		}
	}
	for b := range l.body {
		iff, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if iff == nil {
			continue
		}
		in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if in0 && in1 {
			continue
		}
		cond, stay := iff.Cond, in0
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, stay = u.X, !stay
				continue
			}
			break
		}
		cmp, isCmp := cond.(*ssa.BinOp)
		t.every = l.everyIteration(b)
		if !t.plain(l, cond, map[ssa.Value]bool{}) {
			if os.Getenv("FT_TERM") != "" {
				fmt.Println("not plain:", cond, t.c.P.Pos(cond.Pos()))
			}
			understood = false
		}
		if !isCmp || !l.everyIteration(b) {
			continue
		}
		op := cmp.Op
		if !stay {
			op = negCmp(op)
		}
		for _, o := range []struct {
			x, y ssa.Value
			op   token.Token
		}{{cmp.X, cmp.Y, op}, {cmp.Y, cmp.X, swapCmp(op)}} {
			dir := 0
			switch o.op {
			case token.LSS, token.LEQ, token.NEQ:
				dir = 1
			}
			if dir == 0 {
				continue
			}
			// o.x < o.y has to hold to stay; o.x grows or o.y shrinks
			if w := t.bounded(l, b, o.x, o.y, o.op); w != "" {
				return w, true, true
			}
		}
		fails = append(fails, fmt.Sprintf("the test at %s does not", t.c.posOf(cmp)))
	}
	if len(fails) == 0 {
		fails = []string{"no test is made on every iteration"}
	}
	sort.Strings(fails)
	return strings.Join(fails, "; "), false, understood
}

func negCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swapCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// plain reports whether v is made of values the analysis can follow: no calls
// to functions other than len and cap decide it.
func (t *term) plain(l *natLoop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if in, ok := v.(ssa.Instruction); ok && !l.body[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Phi:
		t.phi++
		defer func() { t.phi-- }()
		for _, e := range v.Edges {
			if !t.plain(l, e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return t.plain(l, v.X, seen) && t.plain(l, v.Y, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.IndexAddr, *ssa.Global:
				return true
			case *ssa.FieldAddr:
				if _, ok := a.X.(*ssa.IndexAddr); ok {
					return true // an element of a table or stack
				}
				return !t.every || t.simplyStored(l, a)
			}
			return false // a captured variable
		}
		return t.plain(l, v.X, seen)
	case *ssa.Convert:
		return t.plain(l, v.X, seen)
	case *ssa.ChangeType:
		return t.plain(l, v.X, seen)
	case *ssa.Slice:
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return (b.Name() == "len" || b.Name() == "cap") && t.plain(l, v.Call.Args[0], seen)
		}
		return isInt(v.Type()) && t.phi > 0 || t.aside(l, v)
	case *ssa.Extract:
		if isInt(v.Type()) && t.phi > 0 {
			return true
		}
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return t.aside(l, c)
		}
		_, ok := v.Tuple.(*ssa.Lookup)
		return ok
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Lookup, *ssa.Field, *ssa.Index:
		return true
	}
	return false
}

// simplyStored: the loop changes a field only by counting it in place.
func (t *term) simplyStored(l *natLoop, a *ssa.FieldAddr) bool {
	key := addrKey(a)
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if addrKey(in.Addr) == key {
					bo, ok := in.Val.(*ssa.BinOp)
					if !ok {
						return false
					}
					if ld, ok := bo.X.(*ssa.UnOp); !ok || ld.Op != token.MUL || addrKey(ld.X) != key {
						return false
					}
				} else if holds(in.Val.Type(), a) {
					return false
				}
			case ssa.CallInstruction:
				if t.callStores(in, a, key) {
					return false
				}
			}
		}
	}
	return true
}

// aside: a call is not handed anything the loop counts with, so that its
// result does not hide a test of it.
func (t *term) aside(l *natLoop, c *ssa.Call) bool {
	if c.Call.IsInvoke() || c.Call.StaticCallee() == nil {
		return false
	}
	for _, b := range c.Call.StaticCallee().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, elem := fa.X.(*ssa.IndexAddr); elem {
				continue
			}
			switch x := st.Val.(type) {
			case *ssa.BinOp:
				// a cursor kept in an object
				if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL && addrKey(ld.X) == addrKey(fa) {
					return false
				}
			case *ssa.Slice:
				if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL && addrKey(ld.X) == addrKey(fa) && x.Low != nil {
					return false
				}
			}
		}
	}
	for i, a := range c.Call.Args {
		if al, ok := a.(*ssa.Alloc); ok && counts(al.Type()) {
			return false
		}
		for _, p := range headPhis(l) {
			if _, ok := p.Type().Underlying().(*types.Slice); !ok && !isInt(p.Type()) {
				continue
			}
			if derives(a, p, map[ssa.Value]bool{}) && tests(c.Call.StaticCallee(), i, 0) {
				return false
			}
		}
	}
	return true
}

// counts: the variable pointed to may hold a counter.
func counts(t types.Type) bool {
	e := t.Underlying().(*types.Pointer).Elem().Underlying()
	switch e := e.(type) {
	case *types.Struct:
		for i := 0; i < e.NumFields(); i++ {
			ft := e.Field(i).Type()
			if _, sl := ft.Underlying().(*types.Slice); sl || isInt(ft) {
				return true
			}
		}
		return false
	case *types.Basic:
		return e.Info()&types.IsInteger != 0
	}
	return true
}

// tests: whatever f returns normally, it has tested its parameter i, or a
// function it hands it to may have.
func tests(f *ssa.Function, i, depth int) bool {
	if f == nil || len(f.Blocks) == 0 || i >= len(f.Params) || depth > 5 {
		return true
	}
	p := f.Params[i]
	var rets []*ssa.Return
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		failed := false
		for _, x := range r.Results {
			if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) || neverNil(x) && isErr(x.Type()) {
				failed = true
			}
		}
		if !failed || len(r.Results) == 1 {
			rets = append(rets, r)
		}
		for _, x := range r.Results {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && derives(x, p, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	for _, b := range f.Blocks {
		every := true
		for _, r := range rets {
			if !b.Dominates(r.Block()) {
				every = false
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If:
				if every && derives(in.Cond, p, map[ssa.Value]bool{}) {
					return true
				}
			case ssa.CallInstruction:
				if _, ok := in.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for k, a := range in.Common().Args {
					if derives(a, p, map[ssa.Value]bool{}) && tests(in.Common().StaticCallee(), k, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// derives: v is computed from p by arithmetic, slicing and merging.
func derives(v, p ssa.Value, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if derives(e, p, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return derives(v.X, p, seen) || derives(v.Y, p, seen)
	case *ssa.Convert:
		return derives(v.X, p, seen)
	case *ssa.Slice:
		for _, o := range []ssa.Value{v.X, v.Low, v.High} {
			if o != nil && derives(o, p, seen) {
				return true
			}
		}
	}
	return false
}

// bounded decides whether staying while x op y bounds the loop.
func (t *term) bounded(l *natLoop, at *ssa.BasicBlock, x, y ssa.Value, op token.Token) string {
	var phis []*ssa.Phi
	var dirs []int
	var cells []*cell
	var side func(v ssa.Value, dir int) (moves bool, ok bool)
	side = func(v ssa.Value, dir int) (moves bool, ok bool) {
		if t.invariant(l, v, 0) {
			return false, true
		}
		if cl := t.cellOf(l, v); cl != nil {
			if cl.step*dir > 0 {
				cells = append(cells, cl)
				return true, true
			}
			return false, false
		}
		if lv := lenOf(v); lv != nil {
			// the length of a slice that changes
			for _, p := range headPhis(l) {
				if _, sl := p.Type().Underlying().(*types.Slice); sl && dir < 0 {
					if _, ok := newDelta(t, p, 1, nil).of(lv); ok {
						phis, dirs = append(phis, p), append(dirs, 1)
						return true, true
					}
				}
			}
			return false, false
		}
		for _, p := range headPhis(l) {
			if !isInt(p.Type()) {
				continue
			}
			if _, ok := newDelta(t, p, dir, nil).of(v); ok {
				phis, dirs = append(phis, p), append(dirs, dir)
				return true, true
			}
		}
		if b, ok := plainInt(v).(*ssa.BinOp); ok && op != token.NEQ {
			switch {
			case b.Op == token.ADD && t.invariant(l, b.X, 0):
				return side(b.Y, dir)
			case (b.Op == token.ADD || b.Op == token.SUB) && t.invariant(l, b.Y, 0):
				return side(b.X, dir)
			case b.Op == token.SUB && t.invariant(l, b.X, 0):
				return side(b.Y, -dir)
			}
		}
		return false, false
	}
	mx, okx := side(x, 1)
	my, oky := side(y, -1)
	if !okx || !oky || !(mx || my) {
		return ""
	}
	if len(cells) > 0 {
		if len(phis) > 0 {
			return ""
		}
		if op == token.NEQ && (len(cells) != 1 || cells[0].step != 1 && cells[0].step != -1) {
			return ""
		}
		return fmt.Sprintf("%s counts by %d on every iteration, tested at %s", cells[0].key, cells[0].step, t.c.P.Pos(cells[0].pos))
	}
	var m *mid
	if len(phis) == 2 && op != token.NEQ {
		m = &mid{phis[0], phis[1], op == token.LSS}
	}
	if !t.vectorStep(l, phis, dirs, m) {
		return ""
	}
	if !t.noWrap(l, phis, dirs, x, y, op) {
		return ""
	}
	if op == token.NEQ {
		// no step may jump over the bound
		if len(phis) != 1 || !isInt(phis[0].Type()) {
			return ""
		}
		if !t.exactStep(l, phis[0], dirs[0]) {
			return ""
		}
		if sizeof(phis[0].Type()) == 64 {
			bound := y
			if dirs[0] < 0 {
				bound = x
			}
			if !t.startsBefore(l, phis[0], dirs[0], bound) {
				t.unsure = true
				return ""
			}
		}
	}
	var s []string
	for i, p := range phis {
		d := "grows"
		if dirs[i] < 0 || !isInt(p.Type()) {
			d = "shrinks"
		}
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		s = append(s, n+" "+d)
	}
	return strings.Join(s, " or ") + " on every iteration, tested at " + t.c.P.Pos(at.Instrs[len(at.Instrs)-1].(*ssa.If).Cond.Pos())
}

// noWrap: a counter narrower than what it is compared with, or compared with
// its type's own limit, would start again instead of ending the loop.
func (t *term) noWrap(l *natLoop, phis []*ssa.Phi, dirs []int, x, y ssa.Value, op token.Token) bool {
	for i, p := range phis {
		if !isInt(p.Type()) || op == token.NEQ {
			continue
		}
		size := sizeof(p.Type())
		if derives(x, p, map[ssa.Value]bool{}) && dirs[i] > 0 {
			top := int64(math.MaxInt64)
			if size < 64 {
				top = 1<<uint(size) - 1
				if !isUnsigned(p.Type()) {
					top = 1<<uint(size-1) - 1
				}
			}
			hi, ok := t.upper(y, l.head, 0)
			if ok && (hi < top || hi == top && op == token.LSS) {
				continue
			}
			if size < sizeof(x.Type()) && size <= 16 {
				if _, ld := plainInt(y).(*ssa.UnOp); ld || lenOf(y) != nil {
					t.unsure = true
				}
				return false
			}
			if op == token.LEQ && (size <= 16 || ok) {
				return false
			}
		}
		if derives(y, p, map[ssa.Value]bool{}) && dirs[i] < 0 && op == token.LEQ && isUnsigned(p.Type()) {
			if lo, ok := t.lower(x, l.head, 0, nil); !ok || lo < 1 {
				return false
			}
		}
	}
	return true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func headPhis(l *natLoop) (out []*ssa.Phi) {
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

func lenOf(v ssa.Value) ssa.Value {
	v = plainInt(v)
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
			return c.Call.Args[0]
		}
	}
	return nil
}

func sizeof(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *term) startsBefore(l *natLoop, p *ssa.Phi, dir int, bound ssa.Value) bool {
	bc, ok := intConst(bound)
	for i, e := range p.Edges {
		pred := p.Block().Preds[i]
		if l.body[pred] {
			continue
		}
		lim := bc
		if !ok {
			// the bound is a length
			if dir < 0 || lenOf(bound) == nil {
				return false
			}
			lim = 0
		}
		if dir > 0 {
			if x, ok := t.upper(e, pred, 0); !ok || x > lim {
				return false
			}
		} else if x, ok := t.lower(e, pred, 0, nil); !ok || x < lim {
			return false
		}
	}
	return true
}

// plainInt strips conversions between integer types of at least 32 bits.
func plainInt(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			if !isInt(c.Type()) || !isInt(c.X.Type()) || sizeof(c.Type()) < 32 {
				return v
			}
			v = c.X
		case *ssa.ChangeType:
			v = c.X
		default:
			return v
		}
	}
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// vectorStep decides whether along every way round l every phi moves by at
// least zero in its direction and some by at least one.
func (t *term) vectorStep(l *natLoop, phis []*ssa.Phi, dirs []int, m *mid) bool {
	ds := make([]*delta, len(phis))
	for i := range phis {
		ds[i] = newDelta(t, phis[i], dirs[i], m)
	}
	budget := 4096
	var walk func(vals []ssa.Value, from []edgeTo) bool
	walk = func(vals []ssa.Value, from []edgeTo) bool {
		budget--
		if budget < 0 {
			return false
		}
		sum := int64(0)
		good := true
		for i, v := range vals {
			d, ok := ds[i].at(v, from[i])
			if !ok || d < 0 {
				good = false
				break
			}
			sum += d
		}
		if good && sum >= 1 {
			return true
		}
		// split at a merge inside the loop
		var at *ssa.BasicBlock
		for _, v := range vals {
			p, ok := v.(*ssa.Phi)
			if !ok || p.Block() == l.head || !l.body[p.Block()] {
				continue
			}
			inner := false
			for _, q := range p.Block().Preds {
				if p.Block().Dominates(q) {
					inner = true
				}
			}
			if inner {
				continue
			}
			if at == nil || at.Dominates(p.Block()) {
				at = p.Block()
			}
		}
		if at == nil {
			return false
		}
		for k := range at.Preds {
			nv := append([]ssa.Value(nil), vals...)
			nf := append([]edgeTo(nil), from...)
			for i, v := range vals {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == at {
					nv[i] = p.Edges[k]
				}
				nf[i] = edgeTo{at.Preds[k], at}
			}
			if !walk(nv, nf) {
				return false
			}
		}
		return true
	}
	for k, pred := range l.head.Preds {
		if !l.body[pred] {
			continue
		}
		vals := make([]ssa.Value, len(phis))
		from := make([]edgeTo, len(phis))
		for i, p := range phis {
			vals[i], from[i] = p.Edges[k], edgeTo{pred, l.head}
		}
		if !walk(vals, from) {
			return false
		}
	}
	return true
}

// exactStep: p moves by exactly one in direction dir.
func (t *term) exactStep(l *natLoop, p *ssa.Phi, dir int) bool {
	up, down := newDelta(t, p, dir, nil), newDelta(t, p, -dir, nil)
	for k, pred := range l.head.Preds {
		if !l.body[pred] {
			continue
		}
		a, ok1 := up.at(p.Edges[k], edgeTo{pred, l.head})
		b, ok2 := down.at(p.Edges[k], edgeTo{pred, l.head})
		if !ok1 || !ok2 || a != 1 || b != -1 {
			return false
		}
	}
	return true
}

// mid describes the pair lo op hi of a bisection.
type mid struct {
	lo, hi ssa.Value
	strict bool
}

// is reports whether v is the middle of m's pair.
func (m *mid) is(v ssa.Value) bool {
	half := func(v ssa.Value) ssa.Value {
		b, ok := plainInt(v).(*ssa.BinOp)
		if !ok {
			return nil
		}
		c, _ := intConst(b.Y)
		if b.Op == token.QUO && c == 2 || b.Op == token.SHR && c == 1 {
			return plainInt(b.X)
		}
		return nil
	}
	if h := half(v); h != nil {
		if b, ok := h.(*ssa.BinOp); ok && b.Op == token.ADD {
			x, y := plainInt(b.X), plainInt(b.Y)
			return x == m.lo && y == m.hi || x == m.hi && y == m.lo
		}
		return false
	}
	b, ok := plainInt(v).(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	x, y := plainInt(b.X), b.Y
	if x != m.lo {
		x, y = plainInt(b.Y), b.X
	}
	if x != m.lo {
		return false
	}
	h, ok := half(y).(*ssa.BinOp)
	return ok && h.Op == token.SUB && plainInt(h.X) == m.hi && plainInt(h.Y) == m.lo
}

// delta computes, for values reached from base, a lower bound on
// dir*(value-base); for a slice, on how much shorter it is.
type delta struct {
	t    *term
	base ssa.Value
	dir  int
	mid  *mid
	val  map[deltaKey]int64 // absent: not reached yet
	bad  map[deltaKey]bool
	work bool
}

type deltaKey struct {
	v  ssa.Value
	ok int // for a tuple's component: the index of the flag known to be true, plus one
}

const deltaTop = math.MaxInt64

func newDelta(t *term, base ssa.Value, dir int, m *mid) *delta {
	return &delta{t: t, base: base, dir: dir, mid: m, val: map[deltaKey]int64{}, bad: map[deltaKey]bool{}}
}

func (d *delta) of(v ssa.Value) (int64, bool) { return d.at(v, edgeTo{}) }

// at is the bound on v as it leaves block from.
func (d *delta) at(v ssa.Value, from edgeTo) (int64, bool) {
	for i := 0; i < 64; i++ {
		d.work = false
		visited := map[deltaKey]bool{}
		x, ok := d.eval(v, from, visited, 0)
		if !d.work {
			if x == deltaTop {
				return 0, false
			}
			return x, ok
		}
	}
	return 0, false
}

func (d *delta) eval(v ssa.Value, from edgeTo, visited map[deltaKey]bool, depth int) (int64, bool) {
	if v == d.base {
		return 0, true
	}
	if depth > 200 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return 0, false
	case *ssa.Phi:
		k := deltaKey{v, 0}
		if d.bad[k] {
			return 0, false
		}
		if visited[k] {
			if x, ok := d.val[k]; ok {
				return x, true
			}
			return deltaTop, true
		}
		visited[k] = true
		res := int64(deltaTop)
		for i, e := range v.Edges {
			x, ok := d.eval(e, edgeTo{v.Block().Preds[i], v.Block()}, visited, depth+1)
			if !ok {
				d.bad[k] = true
				d.work = true
				return 0, false
			}
			if x < res {
				res = x
			}
		}
		if old, ok := d.val[k]; !ok || old != res {
			if ok && res < old-1<<20 {
				d.bad[k] = true
			}
			d.val[k] = res
			d.work = true
		}
		return res, true
	case *ssa.BinOp:
		if d.mid != nil && d.mid.is(v) {
			if d.base == d.mid.lo && d.dir > 0 {
				return 0, true
			}
			if d.base == d.mid.hi && d.dir < 0 {
				if d.mid.strict {
					return 1, true
				}
				return 0, true
			}
		}
		add := func(x, y ssa.Value, sign int) (int64, bool) {
			a, ok := d.eval(x, from, visited, depth+1)
			if !ok {
				return 0, false
			}
			if a == deltaTop {
				return a, true
			}
			b, ok := d.t.amount(y, v.Block(), sign*d.dir, 0)
			if !ok {
				return 0, false
			}
			return a + b, true
		}
		switch v.Op {
		case token.ADD:
			if a, ok := add(v.X, v.Y, 1); ok {
				return a, true
			}
			return add(v.Y, v.X, 1)
		case token.SUB:
			return add(v.X, v.Y, -1)
		}
		return 0, false
	case *ssa.Convert:
		if isInt(v.Type()) && isInt(v.X.Type()) && sizeof(v.Type()) >= sizeof(v.X.Type()) {
			return d.eval(v.X, from, visited, depth+1)
		}
		return 0, false
	case *ssa.ChangeType:
		return d.eval(v.X, from, visited, depth+1)
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); !ok || d.dir < 0 {
			return 0, false
		}
		a, ok := d.eval(v.X, from, visited, depth+1)
		if !ok || a == deltaTop {
			return a, ok
		}
		if v.Low == nil {
			if v.High != nil {
				return 0, false // may grow up to the capacity
			}
			return a, true
		}
		if v.High != nil && lenOf(v.High) != v.X {
			return 0, false
		}
		b, ok := d.t.amount(v.Low, v.Block(), 1, 0)
		if !ok {
			return 0, false
		}
		if b < 0 {
			b = 0
		}
		return a + b, true
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			return 0, false
		}
		return d.call(c, v.Index, from, visited, depth)
	case *ssa.Call:
		return d.call(v, 0, from, visited, depth)
	}
	return 0, false
}

// call bounds a result of a helper by what it adds to one of its arguments.
func (d *delta) call(c *ssa.Call, idx int, from edgeTo, visited map[deltaKey]bool, depth int) (int64, bool) {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Signature.Recv() != nil && c.Call.IsInvoke() || depth > 20 {
		return 0, false
	}
	// which flag result is known to be true (or error known to be nil)?
	flag := -1
	var flagNil bool
	if from.b != nil && c.Referrers() != nil {
		for _, r := range *c.Referrers() {
			e, ok := r.(*ssa.Extract)
			if !ok || e.Referrers() == nil {
				continue
			}
			for _, u := range *e.Referrers() {
				switch u := u.(type) {
				case *ssa.If:
					if u.Cond == e && from.after(u.Block(), 0) {
						flag = e.Index
					}
				case *ssa.UnOp:
					if u.Op == token.NOT {
						for _, w := range *u.Referrers() {
							if iff, ok := w.(*ssa.If); ok && from.after(iff.Block(), 1) {
								flag = e.Index
							}
						}
					}
				case *ssa.BinOp:
					if isErr(e.Type()) && (isNilConst(u.X) || isNilConst(u.Y)) {
						s := 0
						if u.Op == token.NEQ {
							s = 1
						}
						for _, w := range *u.Referrers() {
							if iff, ok := w.(*ssa.If); ok && from.after(iff.Block(), s) {
								flag, flagNil = e.Index, true
							}
						}
					}
				}
			}
		}
	}
	for i, a := range c.Call.Args {
		if i >= len(f.Params) || !isInt(a.Type()) {
			if _, sl := a.Type().Underlying().(*types.Slice); !sl {
				continue
			}
		}
		if !types.Identical(a.Type().Underlying(), resultType(f, idx).Underlying()) {
			continue
		}
		x, ok := d.eval(a, from, visited, depth+1)
		if !ok {
			continue
		}
		if x == deltaTop {
			return x, true
		}
		sub := newDelta(d.t, f.Params[i], d.dir, nil)
		res, good := int64(deltaTop), true
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if flag >= 0 && flag < len(r.Results) {
				if k, ok := r.Results[flag].(*ssa.Const); ok && !flagNil && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
					continue
				}
				if flagNil && neverNil(r.Results[flag]) {
					continue
				}
			}
			y, ok := sub.at(r.Results[idx], edgeTo{b, nil})
			if !ok {
				good = false
				break
			}
			if y < res {
				res = y
			}
		}
		if good && res != deltaTop {
			return x + res, true
		}
	}
	return 0, false
}

func neverNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "New"
	}
	return false
}

func resultType(f *ssa.Function, i int) types.Type {
	if i < f.Signature.Results().Len() {
		return f.Signature.Results().At(i).Type()
	}
	return types.Typ[types.Invalid]
}

// An edgeTo is the place where a value is used: the edge from b to to.
type edgeTo struct{ b, to *ssa.BasicBlock }

// after: the edge is only reached through successor s of a.
func (e edgeTo) after(a *ssa.BasicBlock, s int) bool {
	return edgeDominates(a, s, e.b) || a == e.b && a.Succs[s] == e.to && a.Succs[1-s] != e.to
}

// edgeDominates: control reaches b only through successor s of a.
func edgeDominates(a *ssa.BasicBlock, s int, b *ssa.BasicBlock) bool {
	to := a.Succs[s]
	return len(to.Preds) == 1 && a.Succs[0] != a.Succs[1] && to.Dominates(b)
}

// amount is a lower bound of v (sign>0) or of -v (sign<0) at block b.
func (t *term) amount(v ssa.Value, b *ssa.BasicBlock, sign, depth int) (int64, bool) {
	if sign > 0 {
		return t.lower(v, b, depth, nil)
	}
	x, ok := t.upper(v, b, depth)
	return -x, ok
}

func (t *term) upper(v ssa.Value, b *ssa.BasicBlock, depth int) (int64, bool) {
	if c, ok := intConst(v); ok {
		return c, true
	}
	if depth > 20 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.Convert:
		if isInt(v.X.Type()) && isInt(v.Type()) && (sizeof(v.Type()) > sizeof(v.X.Type())) {
			return t.upper(v.X, b, depth+1)
		}
	case *ssa.Phi:
		res := int64(math.MinInt64)
		for _, e := range v.Edges {
			x, ok := t.upper(e, b, depth+1)
			if !ok {
				return 0, false
			}
			if x > res {
				res = x
			}
		}
		return res, true
	}
	if isInt(v.Type()) {
		switch sizeof(v.Type()) {
		case 8:
			return 255, true
		case 16:
			return 65535, true
		}
	}
	return 0, false
}

func (t *term) lower(v ssa.Value, b *ssa.BasicBlock, depth int, seen map[ssa.Value]bool) (int64, bool) {
	if c, ok := intConst(v); ok {
		return c, true
	}
	if depth > 20 || seen[v] {
		return 0, false
	}
	res, found := int64(0), false
	raise := func(x int64) {
		if !found || x > res {
			res, found = x, true
		}
	}
	if isUnsigned(v.Type()) {
		raise(0)
	}
	switch v := v.(type) {
	case *ssa.Convert:
		if isInt(v.X.Type()) && isInt(v.Type()) && (sizeof(v.Type()) > sizeof(v.X.Type()) || isUnsigned(v.Type()) == isUnsigned(v.X.Type()) && sizeof(v.Type()) == sizeof(v.X.Type())) {
			if x, ok := t.lower(v.X, b, depth+1, seen); ok {
				raise(x)
			}
		}
	case *ssa.ChangeType:
		return t.lower(v.X, b, depth+1, seen)
	case *ssa.Phi:
		s := map[ssa.Value]bool{v: true}
		for k := range seen {
			s[k] = true
		}
		m, ok := int64(math.MaxInt64), true
		for i, e := range v.Edges {
			x, o := t.lower(e, v.Block().Preds[i], depth+1, s)
			if !o {
				ok = false
				break
			}
			if x < m {
				m = x
			}
		}
		if ok {
			raise(m)
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			raise(0)
		} else if x, ok := t.result(v, 0, depth); ok {
			raise(x)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if x, ok := t.result(c, v.Index, depth); ok {
				raise(x)
			}
		}
	case *ssa.BinOp:
		x, ok1 := t.lower(v.X, b, depth+1, seen)
		y, ok2 := t.lower(v.Y, b, depth+1, seen)
		switch v.Op {
		case token.ADD:
			if ok1 && ok2 && sizeof(v.Type()) == 64 && x < 1<<40 && y < 1<<40 {
				raise(x + y)
			}
		case token.MUL:
			if ok1 && ok2 && x >= 0 && y >= 0 && x < 1<<20 && y < 1<<20 && sizeof(v.Type()) == 64 {
				raise(x * y)
			}
		case token.AND:
			if ok1 && x >= 0 || ok2 && y >= 0 {
				raise(0)
			}
		case token.SHR, token.QUO, token.REM, token.AND_NOT:
			if ok1 && x >= 0 && (ok2 && y >= 0) {
				raise(0)
			}
		}
	}
	// tests passed on the way to b
	if refs := v.Referrers(); refs != nil && b != nil {
		for _, r := range *refs {
			cmp, ok := r.(*ssa.BinOp)
			if !ok || cmp.Referrers() == nil {
				continue
			}
			for _, u := range *cmp.Referrers() {
				iff, ok := u.(*ssa.If)
				if !ok {
					continue
				}
				for s := 0; s < 2; s++ {
					if !edgeDominates(iff.Block(), s, b) {
						continue
					}
					op, other := cmp.Op, cmp.Y
					if cmp.Y == v {
						op, other = swapCmp(op), cmp.X
					}
					if s == 1 {
						op = negCmp(op)
					}
					y, ok := t.lower(other, b, depth+5, seen)
					switch {
					case op == token.GTR && ok:
						raise(y + 1)
					case op == token.GEQ && ok:
						raise(y)
					case op == token.EQL && ok:
						raise(y)
					case op == token.NEQ && found && res == 0:
						if c, k := intConst(other); k && c == 0 {
							raise(1)
						}
					}
				}
			}
		}
	}
	return res, found
}

// result is a lower bound of a helper's result.
func (t *term) result(c *ssa.Call, i, depth int) (int64, bool) {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || depth > 8 || !isInt(resultType(f, i)) {
		return 0, false
	}
	m, found := int64(math.MaxInt64), false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		x, ok := t.lower(r.Results[i], b, depth+6, nil)
		if !ok {
			return 0, false
		}
		if found = true; x < m {
			m = x
		}
	}
	return m, found
}

// A cell is an integer field that a loop counts in place.
type cell struct {
	key  string
	step int
	pos  token.Pos
}

func addrKey(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return tkey(a.X.Type()) + "." + structOf(a.X.Type()).Field(a.Field).Name()
	case *ssa.Alloc:
		return "variable " + a.Comment
	case *ssa.FreeVar:
		return "variable " + a.Name()
	}
	return ""
}

func (t *term) cellOf(l *natLoop, v ssa.Value) *cell {
	v = plainInt(v)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !isInt(u.Type()) {
		return nil
	}
	key := addrKey(u.X)
	if key == "" || !strings.Contains(key, ".") {
		return nil
	}
	var st *ssa.Store
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if addrKey(in.Addr) == key {
					if st != nil || !l.everyIteration(b) {
						return nil
					}
					st = in
				} else if holds(in.Val.Type(), u.X) {
					return nil
				}
			case ssa.CallInstruction:
				if t.callStores(in, u.X, key) {
					return nil
				}
			}
		}
	}
	if st == nil {
		return nil
	}
	// a counter stepped inside a nested loop is left to that loop
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return nil
	}
	ld, ok := bo.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || addrKey(ld.X) != key {
		return nil
	}
	n, ok := intConst(bo.Y)
	if !ok {
		return nil
	}
	switch bo.Op {
	case token.SUB:
		n = -n
	case token.ADD:
	default:
		return nil
	}
	if n == 0 || n > 1<<20 || n < -1<<20 {
		return nil
	}
	return &cell{key, int(n), bo.Pos()}
}

// holds: storing a value of type ty may overwrite the field addr names.
func holds(ty types.Type, addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	own := fa.X.Type().Underlying().(*types.Pointer).Elem()
	var in func(t types.Type, d int) bool
	in = func(t types.Type, d int) bool {
		if d > 6 {
			return false
		}
		if types.Identical(t, own) {
			return true
		}
		switch t := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				if in(t.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Array:
			return in(t.Elem(), d+1)
		}
		return false
	}
	return in(ty, 0)
}

// callStores: a call may write the field.
func (t *term) callStores(ci ssa.CallInstruction, addr ssa.Value, key string) bool {
	if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
		return false
	}
	fs := t.cg.callees(ci)
	for f := range t.cg.reach(fs) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if addrKey(st.Addr) == key || holds(st.Val.Type(), addr) {
						return true
					}
				}
			}
		}
	}
	return false
}

// invariant: v does not change while l runs.
func (t *term) invariant(l *natLoop, v ssa.Value, depth int) bool {
	if depth > 20 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return t.invariant(l, v.X, depth+1) && t.invariant(l, v.Y, depth+1)
	case *ssa.Convert:
		return t.invariant(l, v.X, depth+1)
	case *ssa.ChangeType:
		return t.invariant(l, v.X, depth+1)
	case *ssa.FieldAddr:
		return t.invariant(l, v.X, depth+1)
	case *ssa.Field:
		return t.invariant(l, v.X, depth+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return t.invariant(l, v.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return t.invariant(l, v.X, depth+1)
		}
		if !t.invariant(l, v.X, depth+1) {
			return false
		}
		key := addrKey(v.X)
		if key == "" {
			return false
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if addrKey(in.Addr) == key || holds(in.Val.Type(), v.X) {
						return false
					}
				case ssa.CallInstruction:
					if t.callStores(in, v.X, key) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// recursion checks cycles of calls among the truetype and freetype functions.
func (t *term) recursion() {
	var fns []*ssa.Function
	in := map[*ssa.Function]bool{}
	for _, f := range t.c.libFuncs() {
		if p := fnPkg(f); p == pkgTT || p == pkgRoot {
			fns = append(fns, f)
			in[f] = true
		}
	}
	type edge struct {
		to   *ssa.Function
		call ssa.CallInstruction
	}
	out := map[*ssa.Function][]edge{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					// Interface calls within the package are resolved by type
					// and would make cycles that no value takes part in.
					if g := ci.Common().StaticCallee(); g != nil && in[g] {
						out[f] = append(out[f], edge{g, ci})
					}
				}
			}
		}
	}
	reach := func(from *ssa.Function, skip func(f *ssa.Function, e edge) bool) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		work := []*ssa.Function{from}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			for _, e := range out[f] {
				if !m[e.to] && (skip == nil || !skip(f, e)) {
					m[e.to] = true
					work = append(work, e.to)
				}
			}
		}
		return m
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fns {
		r := reach(f, nil)
		if !r[f] || done[f] {
			continue
		}
		var scc []*ssa.Function
		scc = append(scc, f)
		for g := range r {
			if g != f && reach(g, nil)[f] {
				scc = append(scc, g)
			}
		}
		member := map[*ssa.Function]bool{}
		for _, g := range scc {
			done[g] = true
			member[g] = true
		}
		sort.Slice(scc, func(i, j int) bool { return fname(scc[i]) < fname(scc[j]) })
		var names []string
		for _, g := range scc {
			names = append(names, fname(g))
		}
		t.c.Res.Count("recursive groups", 1)
		desc := strings.Join(names, ", ")
		// flags: an edge taken only when a parameter has one value, passing another
		oneShot := func(g *ssa.Function, e edge) bool {
			if e.to != g {
				return false
			}
			for i, p := range g.Params {
				if i >= len(e.call.Common().Args) {
					break
				}
				if t.flagged(p, e.call.Common().Args[i], e.call.Block()) {
					return true
				}
			}
			return false
		}
		cyclic := func(skip func(f *ssa.Function, e edge) bool) bool {
			for _, g := range scc {
				if reach(g, func(f *ssa.Function, e edge) bool { return !member[e.to] || skip(f, e) })[g] {
					return true
				}
			}
			return false
		}
		if !cyclic(oneShot) {
			t.c.Res.OK("%s: recursion only while a flag argument is unset, and setting it", desc)
			continue
		}
		// counters: choose one integer parameter per function
		ok := false
		var choose func(i int, pick map[*ssa.Function]int, dir int) bool
		choose = func(i int, pick map[*ssa.Function]int, dir int) bool {
			if i < len(scc) {
				for k, p := range scc[i].Params {
					if isInt(p.Type()) {
						pick[scc[i]] = k
						if choose(i+1, pick, dir) {
							return true
						}
					}
				}
				return false
			}
			steps := map[ssa.CallInstruction]int64{}
			for _, g := range scc {
				for _, e := range out[g] {
					if !member[e.to] {
						continue
					}
					d, ok := newDelta(t, g.Params[pick[g]], dir, nil).at(e.call.Common().Args[pick[e.to]], edgeTo{e.call.Block(), nil})
					if !ok || d < 0 {
						return false
					}
					steps[e.call] = d
				}
			}
			if cyclic(func(f *ssa.Function, e edge) bool { return steps[e.call] >= 1 }) {
				return false
			}
			return !cyclic(func(f *ssa.Function, e edge) bool { return t.limited(f.Params[pick[f]], dir, e.call.Block()) })
		}
		if len(scc) <= 5 {
			ok = choose(0, map[*ssa.Function]int{}, 1) || choose(0, map[*ssa.Function]int{}, -1)
		}
		if ok {
			t.c.Res.OK("%s: every cycle of calls advances a counter that is limited before calling on", desc)
			continue
		}
		// Understood when every function has some integer or boolean parameter
		// or none of them keeps a depth elsewhere.
		if t.depthElsewhere(scc) {
			t.c.Res.Undecide("%s: recursion may be limited by a field", desc)
			continue
		}
		t.c.Res.Bad("unbounded recursion "+names[0], t.c.P.Pos(scc[0].Pos()), "no argument of %s advances towards a limit on every cycle of calls", desc)
	}
}

// limited: block b is only reached after p was found on the right side of a constant.
func (t *term) limited(p *ssa.Parameter, dir int, b *ssa.BasicBlock) bool {
	for _, blk := range p.Parent().Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, x, other := cmp.Op, cmp.X, cmp.Y
		if _, ok := intConst(other); !ok {
			op, x, other = swapCmp(op), cmp.Y, cmp.X
		}
		if _, ok := intConst(other); !ok {
			continue
		}
		if _, ok := newDelta(t, p, dir, nil).of(x); !ok {
			continue
		}
		for s := 0; s < 2; s++ {
			if !edgeDominates(blk, s, b) && !(len(blk.Succs[s].Preds) == 1 && blk.Succs[s] == b) {
				continue
			}
			o := op
			if s == 1 {
				o = negCmp(o)
			}
			if dir > 0 && (o == token.LSS || o == token.LEQ) || dir < 0 && (o == token.GTR || o == token.GEQ) {
				return true
			}
		}
	}
	return false
}

// flagged: block b is reached only while p equals a constant that arg differs from.
func (t *term) flagged(p *ssa.Parameter, arg ssa.Value, b *ssa.BasicBlock) bool {
	for _, blk := range p.Parent().Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, s := iff.Cond, 0
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, s = u.X, 1-s
				continue
			}
			break
		}
		if cond == p {
			// a bool: the call is made while it is false (or true), passing the opposite
			for _, val := range []bool{true, false} {
				side := s
				if !val {
					side = 1 - s
				}
				if k, ok := arg.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val && edgeDominates(blk, side, b) {
					return true
				}
			}
			continue
		}
		cmp, ok := cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		other := cmp.Y
		if cmp.X != p {
			if cmp.Y != p {
				continue
			}
			other = cmp.X
		}
		c, ok := intConst(other)
		if !ok {
			continue
		}
		if cmp.Op == token.NEQ {
			s = 1 - s
		}
		if !edgeDominates(blk, s, b) {
			continue
		}
		if lo, ok := t.lower(arg, b, 0, nil); ok && lo > c {
			return true
		}
	}
	return false
}

// depthElsewhere: some function of the group tests a field it or another of
// the group also changes.
func (t *term) depthElsewhere(scc []*ssa.Function) bool {
	stored := map[string]bool{}
	for _, f := range scc {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
					continue
				}
				// a field counted up or down
				if ld, ok := bo.X.(*ssa.UnOp); ok && ld.Op == token.MUL && addrKey(ld.X) == addrKey(st.Addr) {
					if _, ok := intConst(bo.Y); ok {
						stored[addrKey(st.Addr)] = true
					}
				}
			}
		}
	}
	for _, f := range scc {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cmp, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, o := range []ssa.Value{cmp.X, cmp.Y} {
					if u, ok := plainInt(o).(*ssa.UnOp); ok && u.Op == token.MUL && stored[addrKey(u.X)] {
						return true
					}
				}
			}
		}
	}
	return false
}
