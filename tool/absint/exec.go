package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// value returns the abstract value of an operand.
func (e *Engine) value(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return VRef{e.globalRef(st, x)}
	case *ssa.Function:
		r := e.refAt(memoKey{0, x, "func"})
		if st.refs[r] == nil {
			st.refs[r] = &RefInfo{Nil: no, Fns: []fnVal{{Fn: x}}}
		}
		return VRef{r}
	case *ssa.Builtin:
		return VTop{}
	}
	f := st.top()
	if r, ok := f.regs[v]; ok {
		return r
	}
	panic(fmt.Sprintf("%s: no value for %s = %s in %s", e.pos(firstInstr(f.fn)), v.Name(), v, f.fn))
}

func firstInstr(f *ssa.Function) ssa.Instruction { return f.Blocks[0].Instrs[0] }

func (e *Engine) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return VBool{condTrue}
		}
		return VBool{condFalse}
	case constant.String:
		s := constant.StringVal(c.Value)
		return VStr{Len: K(int64(len(s))), S: &s}
	case constant.Int:
		if _, ok := intRange(c.Type()); !ok {
			if isFloat(c.Type()) {
				return floatConst(c.Value)
			}
			return VTop{}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return VInt{K(i)}
		}
		k := e.sym(memoKey{0, c.Value.ExactString(), "const"}, itv{1 << 62, posInf})
		e.constSym[k] = true
		return VInt{V(k)}
	}
	if _, ok := intRange(c.Type()); ok {
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return VInt{K(i)}
		}
	}
	if isFloat(c.Type()) {
		return floatConst(c.Value)
	}
	return VTop{}
}

func (e *Engine) globalRef(st *State, g *ssa.Global) RefID {
	r := e.refAt(memoKey{0, g, "global"})
	o := e.objAt(memoKey{0, g, "global"}, g.RelString(nil), g.Type())
	if st.refs[r] == nil {
		st.refs[r] = &RefInfo{Nil: no, Tg: []Target{{Obj: o}}}
	}
	if st.heap[o] == nil {
		e.objs[o].global = true
		el := g.Type().(*types.Pointer).Elem()
		if v, ok := e.globals[g]; ok {
			st.heap[o] = &Obj{v, false, el}
		} else if e.neverSet(g) {
			st.heap[o] = &Obj{e.zero(el), false, el}
		} else if v := e.initVal(st, g); v != nil {
			st.heap[o] = &Obj{v, false, el}
		} else {
			st.heap[o] = &Obj{e.anySum(el, 0), true, el}
		}
	}
	return r
}

// neverSet reports whether the program only ever reads g, so that it keeps
// its zero value.
func (e *Engine) neverSet(g *ssa.Global) bool {
	if e.set == nil {
		e.set = map[*ssa.Global]bool{}
		e.inits = map[*ssa.Global]ssa.Value{}
		for f := range ssautil.AllFunctions(g.Pkg.Prog) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if u, ok := in.(*ssa.Store); ok && f.Synthetic != "" && f.Name() == "init" {
						if v, ok := u.Addr.(*ssa.Global); ok && e.inits[v] == nil {
							e.inits[v] = u.Val
							continue
						}
					}
					if v, ok := in.(ssa.Value); ok {
						if g, path := partOf(v); g != nil {
							e.set[g] = e.set[g] || !e.onlyRead(g, path, v, f)
							continue
						}
					}
					for _, p := range in.Operands(nil) {
						if v, ok := (*p).(*ssa.Global); ok {
							e.set[v] = true
						}
					}
				}
			}
		}
	}
	return !e.set[g] && e.inits[g] == nil && len(e.parts[g]) == 0
}

// A partInit is what package initialisation sets a part of a variable to.
type partInit struct {
	path string
	val  ssa.Value
}

// partOf returns the variable and the path of the part of it that v is the
// address of.
func partOf(v ssa.Value) (*ssa.Global, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if g, ok := x.X.(*ssa.Global); ok {
			return g, string([]byte{byte(x.Field)})
		}
		g, p := partOf(x.X)
		return g, p + string([]byte{byte(x.Field)})
	case *ssa.IndexAddr:
		c, ok := x.Index.(*ssa.Const)
		if !ok || c.Int64() < 0 || c.Int64() >= 16 {
			return nil, ""
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			return nil, ""
		} else if a, ok := pt.Elem().Underlying().(*types.Array); !ok || a.Len() > 16 {
			return nil, ""
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return g, string([]byte{byte(c.Int64())})
		}
		g, p := partOf(x.X)
		return g, p + string([]byte{byte(c.Int64())})
	}
	return nil, ""
}

// onlyRead reports whether the part of a variable at v is not written through
// v but by package initialisation, which it notes.
func (e *Engine) onlyRead(g *ssa.Global, path string, v ssa.Value, f *ssa.Function) bool {
	var notes []partInit
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if h, _ := partOf(y.(ssa.Value)); h != g {
				return false
			}
			// looked at by itself
		case *ssa.Store:
			if y.Addr != v || f.Synthetic == "" || f.Name() != "init" {
				return false
			}
			notes = append(notes, partInit{path, y.Val})
		default:
			return false
		}
	}
	if e.parts == nil {
		e.parts = map[*ssa.Global][]partInit{}
	}
	e.parts[g] = append(e.parts[g], notes...)
	return true
}

// initVal returns the value that a variable has throughout, if a constant or
// a function.
func (e *Engine) initVal(st *State, g *ssa.Global) Val {
	if e.set[g] {
		return nil
	}
	var eval func(v ssa.Value) Val
	eval = func(v ssa.Value) Val {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function:
			return e.value(st, x)
		case *ssa.UnOp:
			// a composite literal
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return nil
			}
			out := e.zero(x.Type())
			done := map[string]bool{}
			var fill func(v ssa.Value, path string) bool
			fill = func(v ssa.Value, path string) bool {
				for _, u := range *v.Referrers() {
					switch y := u.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						if path != "" {
							return false
						}
					case *ssa.Store:
						w := eval(y.Val)
						if y.Addr != v || w == nil || done[path] {
							return false
						}
						done[path] = true
						out = update(out, path, func(Val) Val { return w })
					case *ssa.FieldAddr:
						if !fill(y, path+string([]byte{byte(y.Field)})) {
							return false
						}
					case *ssa.IndexAddr:
						c, ok := y.Index.(*ssa.Const)
						if _, agg := locate(out, path).(VAgg); !ok || !agg || !fill(y, path+string([]byte{byte(c.Int64())})) {
							return false
						}
					default:
						return false
					}
				}
				return true
			}
			if !fill(al, "") {
				return nil
			}
			return out
		case *ssa.ChangeType:
			return eval(x.X)
		case *ssa.ChangeInterface:
			return eval(x.X)
		case *ssa.MakeInterface:
			if w := eval(x.X); w != nil {
				r := e.refAt(memoKey{0, g, "init"})
				st.refs[r] = &RefInfo{Nil: no, Dyn: []dyn{{x.X.Type(), w}}}
				return VRef{r}
			}
		}
		return nil
	}
	if v := e.inits[g]; v != nil {
		if len(e.parts[g]) != 0 {
			return nil
		}
		return eval(v)
	}
	if len(e.parts[g]) == 0 {
		return nil
	}
	out := e.zero(g.Type().(*types.Pointer).Elem())
	done := map[string]bool{}
	for _, p := range e.parts[g] {
		w := eval(p.val)
		if w == nil || done[p.path] {
			return nil
		}
		done[p.path] = true
		if _, ok := locate(out, p.path).(VArr); ok {
			return nil
		}
		out = update(out, p.path, func(Val) Val { return w })
	}
	return out
}

// execInstr runs one non-control instruction.
func (e *Engine) execInstr(st *State, in ssa.Instruction) []*State {
	e.stats.instrs++
	one := []*State{st}
	set := func(v ssa.Value, x Val) []*State {
		st.top().regs[v] = x
		return one
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := e.alloc(st, x, "", t, e.track(e.zero(t)))
		return set(x, VRef{e.newRef(st, x, "", &RefInfo{Nil: no, Tg: []Target{{Obj: o}}})})
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, ok1 := e.value(st, x.X).(VAgg)
			b, ok2 := e.value(st, x.Y).(VAgg)
			if ok1 && ok2 {
				return e.compareAgg(st, x, a, b)
			}
		}
		return set(x, e.binop(st, x))
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.ChangeType:
		return set(x, e.value(st, x.X))
	case *ssa.ChangeInterface:
		return set(x, e.value(st, x.X))
	case *ssa.Convert:
		return set(x, e.convert(st, x, x.X, x.Type()))
	case *ssa.MultiConvert:
		return set(x, e.fresh(st, x, "", x.Type()))
	case *ssa.Extract:
		if a, ok := e.value(st, x.Tuple).(VAgg); ok {
			return set(x, a.F[x.Index])
		}
		return set(x, e.fresh(st, x, "", x.Type()))
	case *ssa.Field:
		if a, ok := e.value(st, x.X).(VAgg); ok {
			return set(x, a.F[x.Field])
		}
		return set(x, e.fresh(st, x, "", x.Type()))
	case *ssa.FieldAddr:
		r, ok := e.value(st, x.X).(VRef)
		if !ok {
			return set(x, e.fresh(st, x, "", x.Type()))
		}
		if !e.nonNil(st, x, r.R) {
			return nil
		}
		i := st.info(r.R)
		n := &RefInfo{Nil: no, Unk: i.Unk}
		for _, t := range i.Tg {
			t.Path += string([]byte{byte(x.Field)})
			n.Tg = append(n.Tg, t)
		}
		return set(x, VRef{e.newRef(st, x, "", n)})
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Index:
		return e.index(st, x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m, ok := e.value(st, x.Map).(VRef)
		if !ok {
			return one
		}
		i := st.info(m.R)
		e.oblige(st, x, "assignment to nil map", i.Nil == no, nil)
		if i.Nil == yes {
			return nil
		}
		if i.Nil == maybe {
			st.assume(&Cond{K: cNon, R: m.R})
			i = st.info(m.R)
		}
		for k, t := range i.Tg {
			t.Path += string([]byte{elemByte})
			e.write(st, x, fmt.Sprintf("mu%d", k), t, e.value(st, x.Value), false)
		}
		e.setMapLen(st, x, m.R, itv{1, maxLen})
		return one
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := e.alloc(st, x, "", x.Type(), VArr{Elem: e.summarize(e.zero(mt.Elem())), El: mt.Elem(), N: K(0)})
		return set(x, VRef{e.newRef(st, x, "", &RefInfo{Nil: no, Tg: []Target{{Obj: o}}})})
	case *ssa.MakeChan:
		return set(x, VRef{e.newRef(st, x, "", &RefInfo{Nil: no, Unk: true})})
	case *ssa.MakeSlice:
		return e.makeSlice(st, x)
	case *ssa.MakeInterface:
		v := e.value(st, x.X)
		r := e.newRef(st, x, "", &RefInfo{Nil: no, Dyn: []dyn{{x.X.Type(), v}}})
		return set(x, VRef{r})
	case *ssa.MakeClosure:
		f := fnVal{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Binds = append(f.Binds, e.value(st, b))
		}
		return set(x, VRef{e.newRef(st, x, "", &RefInfo{Nil: no, Fns: []fnVal{f}})})
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.SliceToArrayPointer:
		e.note("slice to array pointer at %s", e.pos(x))
		return set(x, e.fresh(st, x, "", x.Type()))
	case *ssa.Store:
		return e.store(st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Range:
		return set(x, e.value(st, x.X))
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.RunDefers:
		return one
	case *ssa.Defer, *ssa.Go, *ssa.Send:
		e.note("%T at %s", in, e.pos(in))
		return one
	case *ssa.Select:
		return set(x, e.fresh(st, x, "", x.Type()))
	}
	panic(fmt.Sprintf("instruction %T", in))
}

// nonNil records the obligation that r is not nil and assumes it.
func (e *Engine) nonNil(st *State, in ssa.Instruction, r RefID) bool {
	i := st.info(r)
	e.oblige(st, in, "nil dereference", i.Nil == no, func() string { return "the pointer may be nil" })
	if i.Nil == yes {
		st.num.setBot()
		return false
	}
	if i.Nil == maybe {
		st.assume(&Cond{K: cNon, R: r})
	}
	return true
}

func (e *Engine) binop(st *State, x *ssa.BinOp) Val {
	a, b := e.value(st, x.X), e.value(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := e.compare(st, x, x.Op, a, b)
		if t := st.eval(c); t == yes {
			c = condTrue
		} else if t == no {
			c = condFalse
		}
		return VBool{c}
	}
	if s, ok := a.(VStr); ok && x.Op == token.ADD {
		if u, ok := b.(VStr); ok {
			if l, ok := s.Len.add(u.Len); ok {
				r := VStr{Len: l}
				if s.S != nil && u.S != nil {
					z := *s.S + *u.S
					r.S = &z
				}
				return r
			}
		}
		return e.fresh(st, x, "", x.Type())
	}
	i, ok1 := a.(VInt)
	j, ok2 := b.(VInt)
	if f, ok := a.(VTerm); ok {
		if g, ok := b.(VTerm); ok {
			return floatOp(x.Op, f.P, g.P)
		}
	}
	if _, isInt := intRange(x.Type()); !isInt {
		return e.fresh(st, x, "", x.Type())
	}
	if !ok1 || !ok2 {
		return e.fresh(st, x, "", x.Type())
	}
	switch x.Op {
	case token.QUO, token.REM:
		e.oblige(st, x, "division by zero", st.num.excludes(j.L), func() string { return "divisor " + e.describe(st, j.L) })
		st.num.addNE(j.L)
		if st.num.bot {
			return VInt{K(0)}
		}
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			e.oblige(st, x, "negative shift", st.num.entails(j.L), func() string { return "shift count " + e.describe(st, j.L) })
			st.num.addGE(j.L)
		}
	}
	if st.num.bot {
		return VInt{K(0)}
	}
	key := e.pureOp(st, x.Op.String()+" "+x.Type().Underlying().String(), i.L, j.L)
	return e.purely(st, key, func() Val { return e.arith(st, x, x.Op, i.L, j.L, x.Type()) })
}

// compareAgg compares structs and small arrays field by field.
func (e *Engine) compareAgg(st *State, x *ssa.BinOp, a, b VAgg) []*State {
	var cs []*Cond
	var flat func(a, b Val)
	flat = func(v, w Val) {
		a, ok1 := v.(VAgg)
		b, ok2 := w.(VAgg)
		if ok1 && ok2 && len(a.F) == len(b.F) {
			for i := range a.F {
				flat(a.F[i], b.F[i])
			}
			return
		}
		cs = append(cs, e.compare(st, x, token.EQL, v, w))
	}
	flat(a, b)
	bools := [2]*Cond{condTrue, condFalse}
	if x.Op == token.NEQ {
		bools = [2]*Cond{condFalse, condTrue}
	}
	var open []*Cond
	for _, c := range cs {
		switch st.eval(c) {
		case no:
			st.top().regs[x] = VBool{bools[1]}
			return []*State{st}
		case maybe:
			open = append(open, c)
		}
	}
	if len(open) > 6 {
		st.top().regs[x] = VBool{condUnk}
		return []*State{st}
	}
	var out []*State
	mark := func(s *State, k int) {
		if len(open) > 0 && e.pathsOn(s) && (!e.Flat || e.loops == 0) {
			s.trace += strconv.Itoa(k)
		}
		out = append(out, s)
	}
	for k, c := range open {
		s := st.clone()
		s.assume(c.not())
		if !s.num.bot {
			s.top().regs[x] = VBool{bools[1]}
			mark(s, k)
		}
		st.assume(c)
	}
	if !st.num.bot {
		st.top().regs[x] = VBool{bools[0]}
		mark(st, len(open))
	}
	return out
}

func (e *Engine) describe(st *State, l Lin) string {
	return e.linStr(st.num.red(l)) + " in " + st.num.itvOf(l).String()
}

func (e *Engine) compare(st *State, in ssa.Instruction, op token.Token, a, b Val) *Cond {
	switch x := a.(type) {
	case VTerm:
		if y, ok := b.(VTerm); ok {
			return compareTerms(op, x.P, y.P)
		}
	case VInt:
		y, ok := b.(VInt)
		if !ok {
			return condUnk
		}
		d, ok := x.L.sub(y.L)
		if !ok {
			return condUnk
		}
		n := d.neg()
		switch op {
		case token.EQL:
			return &Cond{K: cEQ, L: d}
		case token.NEQ:
			return &Cond{K: cNE, L: d}
		case token.LSS:
			return &Cond{K: cGE, L: n.plus(-1)}
		case token.LEQ:
			return &Cond{K: cGE, L: n}
		case token.GTR:
			return &Cond{K: cGE, L: d.plus(-1)}
		case token.GEQ:
			return &Cond{K: cGE, L: d}
		}
	case VBool:
		y, ok := b.(VBool)
		if !ok {
			return condUnk
		}
		c, k := x.C, y.C
		if c.K == cTrue || c.K == cFalse {
			c, k = k, c
		}
		if k.K == cTrue || k.K == cFalse {
			if (k.K == cTrue) == (op == token.EQL) {
				return c
			}
			return c.not()
		}
	case VStr:
		y, ok := b.(VStr)
		if ok && x.S != nil && y.S != nil {
			r := false
			switch op {
			case token.EQL:
				r = *x.S == *y.S
			case token.NEQ:
				r = *x.S != *y.S
			default:
				return condUnk
			}
			if r {
				return condTrue
			}
			return condFalse
		}
		if ok && op == token.EQL && y.S != nil && *y.S == "" {
			return &Cond{K: cEQ, L: x.Len}
		}
		if ok && op == token.NEQ && y.S != nil && *y.S == "" {
			return &Cond{K: cNE, L: x.Len}
		}
	case VRef:
		y, ok := b.(VRef)
		if !ok {
			return condUnk
		}
		var c *Cond
		switch {
		case y.R == 0:
			c = &Cond{K: cNil, R: x.R}
		case x.R == 0:
			c = &Cond{K: cNil, R: y.R}
		default:
			c = &Cond{K: cRefEq, R: x.R, Q: y.R}
		}
		if op == token.NEQ {
			c = c.not()
		}
		return c
	case VSlice:
		// comparison with nil
		y, ok := b.(VSlice)
		if !ok {
			return condUnk
		}
		s := x
		if x.Arr == 0 {
			s = y
		}
		c := &Cond{K: cNil, R: s.Arr}
		if op == token.NEQ {
			c = c.not()
		}
		return c
	}
	return condUnk
}

func (e *Engine) unop(st *State, x *ssa.UnOp) []*State {
	f := st.top()
	switch x.Op {
	case token.MUL:
		r, ok := e.value(st, x.X).(VRef)
		if !ok {
			f.regs[x] = e.fresh(st, x, "", x.Type())
			return []*State{st}
		}
		if !e.nonNil(st, x, r.R) {
			return nil
		}
		return e.loadAll(st, x, r.R, x.Type())
	case token.NOT:
		if b, ok := e.value(st, x.X).(VBool); ok {
			f.regs[x] = VBool{b.C.not()}
			return []*State{st}
		}
	case token.SUB:
		if i, ok := e.value(st, x.X).(VInt); ok {
			key := e.pureOp(st, "neg "+x.Type().Underlying().String(), i.L)
			n := e.purely(st, key, func() Val { return e.norm(st, x, i.L.neg(), true, x.Type()) }).(VInt)
			if !n.L.eq(i.L.neg()) && st.num.excludes(i.L) {
				st.num.addNE(n.L)
			}
			f.regs[x] = n
			return []*State{st}
		}
		if t, ok := e.value(st, x.X).(VTerm); ok {
			f.regs[x] = VTerm{t.P.scale(big.NewRat(-1, 1))}
			return []*State{st}
		}
	case token.XOR:
		if i, ok := e.value(st, x.X).(VInt); ok {
			if isSigned(x.Type()) {
				f.regs[x] = VInt{i.L.neg().plus(-1)}
			} else {
				r := e.typeItv(x.Type())
				if r.hi < 1<<40 {
					d, _ := K(r.hi).sub(i.L)
					f.regs[x] = VInt{d}
				} else {
					f.regs[x] = e.fresh(st, x, "", x.Type())
				}
			}
			return []*State{st}
		}
	}
	f.regs[x] = e.fresh(st, x, "", x.Type())
	return []*State{st}
}

// loadAll reads through a non-nil reference.
func (e *Engine) loadAll(st *State, x ssa.Value, r RefID, t types.Type) []*State {
	in := x.(ssa.Instruction)
	i := st.info(r)
	if i.Unk || len(i.Tg) == 0 {
		st.top().regs[x] = e.fresh(st, x, "", t)
		return []*State{st}
	}
	if len(i.Tg) == 1 {
		st.top().regs[x] = e.read(st, in, "", i.Tg[0], t)
		return []*State{st}
	}
	if v, ok := e.hull(st, in, i.Tg, t); ok {
		st.top().regs[x] = v
		return []*State{st}
	}
	var out []*State
	for k, tg := range i.Tg {
		s := st
		if k+1 < len(i.Tg) {
			s = st.clone()
		}
		s.refs[r] = &RefInfo{Nil: no, Tg: []Target{tg}}
		s.top().regs[x] = e.read(s, in, fmt.Sprintf("t%d", k), tg, t)
		if !s.num.bot {
			out = append(out, s)
		}
	}
	return out
}

// hull reads several targets as one value when only ranges matter.
func (e *Engine) hull(st *State, in ssa.Instruction, tg []Target, t types.Type) (Val, bool) {
	if _, ok := intRange(t); !ok {
		if _, isSt := t.Underlying().(*types.Struct); !isSt {
			return nil, false
		}
	}
	var sum Val
	for _, g := range tg {
		o := st.heap[g.Obj]
		if o == nil {
			return nil, false
		}
		var v Val
		base, rest, elem := splitElem(g.Path)
		if elem {
			a, ok := locate(o.V, base).(VArr)
			if !ok {
				return nil, false
			}
			v = locate(a.Elem, rest)
		} else if o.Weak {
			v = locate(o.V, g.Path)
		} else {
			if _, ok := intRange(t); !ok {
				return nil, false
			}
			v = st.weaken(locate(o.V, g.Path))
		}
		if sum == nil {
			sum = v
		} else {
			sum = e.mergeSum(st, in, "hull", sum, v)
		}
	}
	return e.instantiate(st, in, "hull", t, sum), true
}

func (e *Engine) store(st *State, x *ssa.Store) []*State {
	r, ok := e.value(st, x.Addr).(VRef)
	if !ok {
		return []*State{st}
	}
	if !e.nonNil(st, x, r.R) {
		return nil
	}
	v := e.value(st, x.Val)
	i := st.info(r.R)
	if i.Unk || len(i.Tg) == 0 {
		e.note("store through an unknown pointer at %s", e.pos(x))
	}
	if len(i.Tg) == 1 {
		e.write(st, x, "", i.Tg[0], v, true)
		return []*State{st}
	}
	elem := true
	for _, t := range i.Tg {
		o := st.heap[t.Obj]
		if _, _, el := splitElem(t.Path); !el && !(o != nil && o.Weak) {
			elem = false
		}
	}
	if elem {
		for k, t := range i.Tg {
			e.write(st, x, fmt.Sprintf("t%d", k), t, v, false)
		}
		return []*State{st}
	}
	var out []*State
	for k, t := range i.Tg {
		s := st
		if k+1 < len(i.Tg) {
			s = st.clone()
		}
		s.refs[r.R] = &RefInfo{Nil: no, Tg: []Target{t}}
		e.write(s, x, fmt.Sprintf("t%d", k), t, v, true)
		out = append(out, s)
	}
	return out
}

// inBounds records 0 <= idx < n and assumes it.
func (e *Engine) inBounds(st *State, in ssa.Instruction, idx, n Lin) bool {
	lo := st.num.entails(idx)
	d, ok := n.sub(idx)
	hi := ok && st.num.entails(d.plus(-1))
	e.oblige(st, in, "index out of range", lo && hi, func() string {
		if e.Debug {
			return "index " + e.describe(st, idx) + ", length " + e.describe(st, n) + "\n" + e.Dump(st)
		}
		return "index " + e.describe(st, idx) + ", length " + e.describe(st, n)
	})
	if !lo {
		st.num.addGE(idx)
	}
	if ok && !hi {
		st.num.addGE(d.plus(-1))
	}
	return !st.num.bot
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	iv, ok := e.value(st, x.Index).(VInt)
	if !ok {
		iv = VInt{e.freshInt(st, x, "ix", types.Typ[types.Int])}
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s, ok := e.value(st, x.X).(VSlice)
		if !ok {
			break
		}
		if !e.inBounds(st, x, iv.L, s.Len) {
			return nil
		}
		idx, ok := s.Off.add(iv.L)
		if !ok {
			break
		}
		return e.elemRef(st, x, "", st.info(s.Arr), idx, s.Ver)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		r, ok := e.value(st, x.X).(VRef)
		if !ok {
			break
		}
		if !e.nonNil(st, x, r.R) || !e.inBounds(st, x, iv.L, K(a.Len())) {
			return nil
		}
		return e.elemRef(st, x, "", st.info(r.R), iv.L, 0)
	}
	st.top().regs[x] = e.fresh(st, x, "", x.Type())
	return []*State{st}
}

// elemRef makes x refer to element idx of the arrays arr refers to.
func (e *Engine) elemRef(st *State, x ssa.Value, tag string, arr *RefInfo, idx Lin, ver int) []*State {
	n := &RefInfo{Nil: no, Unk: arr.Unk}
	var agg []Target
	for _, t := range arr.Tg {
		o := st.heap[t.Obj]
		if o == nil {
			n.Unk = true
			continue
		}
		switch c := locate(o.V, t.Path).(type) {
		case VAgg:
			_ = c
			agg = append(agg, t)
		case VArr:
			u := t
			u.Path += string([]byte{elemByte})
			if _, _, nested := splitElem(t.Path); nested {
				u.Idx, u.Ver = t.Idx, -1 // element of an element: position unknown
			} else {
				u.Idx, u.Ver = idx, ver
			}
			n.Tg = append(n.Tg, u)
		default:
			n.Unk = true
		}
	}
	if len(agg) == 0 {
		st.top().regs[x] = VRef{e.newRef(st, x, tag, n)}
		return e.splitGhost(st, n)
	}
	var out []*State
	if len(n.Tg) > 0 || n.Unk {
		s := st.clone()
		s.top().regs[x] = VRef{e.newRef(s, x, tag, n)}
		out = append(out, s)
	}
	for _, t := range agg {
		c := locate(st.heap[t.Obj].V, t.Path).(VAgg)
		r := st.num.itvOf(idx)
		for k := max(r.lo, 0); k <= r.hi && k < int64(len(c.F)); k++ {
			s := st
			if r.lo != r.hi || len(agg) > 1 {
				s = st.clone()
				d, _ := idx.sub(K(k))
				s.num.addEQ(d)
				if s.num.bot {
					continue
				}
			}
			u := t
			u.Path += string([]byte{byte(k)})
			s.top().regs[x] = VRef{e.newRef(s, x, tag, &RefInfo{Nil: no, Tg: []Target{u}})}
			out = append(out, s)
		}
	}
	return out
}

func (e *Engine) index(st *State, x *ssa.Index) []*State {
	iv, ok := e.value(st, x.Index).(VInt)
	if !ok {
		iv = VInt{e.freshInt(st, x, "ix", types.Typ[types.Int])}
	}
	switch v := e.value(st, x.X).(type) {
	case VStr:
		if !e.inBounds(st, x, iv.L, v.Len) {
			return nil
		}
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return []*State{st}
	case VAgg:
		if !e.inBounds(st, x, iv.L, K(int64(len(v.F)))) {
			return nil
		}
		r := st.num.itvOf(iv.L)
		var out []*State
		for k := max(r.lo, 0); k <= r.hi && k < int64(len(v.F)); k++ {
			s := st.clone()
			d, _ := iv.L.sub(K(k))
			s.num.addEQ(d)
			if !s.num.bot {
				s.top().regs[x] = v.F[k]
				out = append(out, s)
			}
		}
		return out
	case VArr:
		if !e.inBounds(st, x, iv.L, v.N) {
			return nil
		}
		st.top().regs[x] = e.tableRead(st, x, v, iv.L)
		return []*State{st}
	}
	st.top().regs[x] = e.fresh(st, x, "", x.Type())
	return []*State{st}
}

func (e *Engine) tableRead(st *State, x ssa.Value, v VArr, idx Lin) Val {
	for _, k := range v.Kn {
		if e.sameIdx(st, k.idx, idx) {
			return k.v
		}
	}
	return e.instantiate(st, x, "", v.El, v.Elem)
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	switch v := e.value(st, x.X).(type) {
	case VStr:
		iv, ok := e.value(st, x.Index).(VInt)
		if !ok {
			break
		}
		if !e.inBounds(st, x, iv.L, v.Len) {
			return nil
		}
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return []*State{st}
	case VRef:
		mt := x.X.Type().Underlying().(*types.Map)
		i := st.info(v.R)
		zero := e.zero(mt.Elem())
		var sum Val = e.summarize(zero)
		if i.Unk {
			sum = VTop{}
		}
		for k, t := range i.Tg {
			if o := st.heap[t.Obj]; o != nil {
				if a, ok := locate(o.V, t.Path).(VArr); ok {
					sum = e.mergeSum(st, x, fmt.Sprintf("m%d", k), sum, a.Elem)
				}
			}
		}
		if !x.CommaOk {
			st.top().regs[x] = e.instantiate(st, x, "", mt.Elem(), sum)
			return []*State{st}
		}
		s := st.clone()
		st.top().regs[x] = VAgg{[]Val{e.instantiate(st, x, "", mt.Elem(), sum), VBool{condTrue}}}
		s.top().regs[x] = VAgg{[]Val{zero, VBool{condFalse}}}
		if i.Nil == yes {
			return []*State{s}
		}
		return []*State{st, s}
	}
	st.top().regs[x] = e.fresh(st, x, "", x.Type())
	return []*State{st}
}

func (e *Engine) makeSlice(st *State, x *ssa.MakeSlice) []*State {
	n, ok1 := e.value(st, x.Len).(VInt)
	c, ok2 := e.value(st, x.Cap).(VInt)
	el := x.Type().Underlying().(*types.Slice).Elem()
	if !ok1 || !ok2 {
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return []*State{st}
	}
	d, _ := c.L.sub(n.L)
	okk := st.num.entails(n.L) && st.num.entails(d)
	e.oblige(st, x, "make with bad length", okk, func() string { return "length " + e.describe(st, n.L) })
	st.num.addGE(n.L)
	st.num.addGE(d)
	st.num.addGE(K(maxLen).minus(c.L))
	if st.num.bot {
		return nil
	}
	o := e.alloc(st, x, "", x.Type(), e.track(VArr{N: c.L, Elem: e.summarize(e.zero(el)), El: el}))
	ver := e.verAt(e.key(st, x, "ver"))
	r := e.newRef(st, x, "", &RefInfo{Nil: no, Tg: []Target{{Obj: o}}})
	st.top().regs[x] = VSlice{Arr: r, Len: n.L, Cap: c.L, Ver: ver}
	return []*State{st}
}

func (e *Engine) slice(st *State, x *ssa.Slice) []*State {
	get := func(v ssa.Value, def Lin) (Lin, bool) {
		if v == nil {
			return def, true
		}
		i, ok := e.value(st, v).(VInt)
		return i.L, ok
	}
	check := func(lo, hi, limit Lin, max bool) bool {
		a := st.num.entails(lo)
		d, ok1 := hi.sub(lo)
		b := ok1 && st.num.entails(d)
		d2, ok2 := limit.sub(hi)
		c := ok2 && st.num.entails(d2)
		e.oblige(st, x, "slice bounds out of range", a && b && c, func() string {
			s := "bounds " + e.describe(st, lo) + " : " + e.describe(st, hi) + ", limit " + e.describe(st, limit)
			if e.Debug {
				s += "\n" + e.Dump(st)
			}
			return s
		})
		st.num.addGE(lo)
		if ok1 {
			st.num.addGE(d)
		}
		if ok2 {
			st.num.addGE(d2)
		}
		return !st.num.bot
	}
	f := st.top()
	switch v := e.value(st, x.X).(type) {
	case VStr:
		lo, ok1 := get(x.Low, K(0))
		hi, ok2 := get(x.High, v.Len)
		if !ok1 || !ok2 {
			break
		}
		if !check(lo, hi, v.Len, false) {
			return nil
		}
		if n, ok := hi.sub(lo); ok {
			f.regs[x] = VStr{Len: n}
			return []*State{st}
		}
	case VSlice:
		lo, ok1 := get(x.Low, K(0))
		hi, ok2 := get(x.High, v.Len)
		mx, ok3 := get(x.Max, v.Cap)
		if !ok1 || !ok2 || !ok3 {
			break
		}
		if x.Max != nil {
			if d, ok := v.Cap.sub(mx); ok {
				st.num.addGE(d)
			}
		}
		if !check(lo, hi, mx, x.Max != nil) {
			return nil
		}
		off, ok1 := v.Off.add(lo)
		n, ok2 := hi.sub(lo)
		c, ok3 := mx.sub(lo)
		if ok1 && ok2 && ok3 {
			if e.allWeak(st, v.Arr) {
				off, c = K(0), n
			}
			f.regs[x] = VSlice{v.Arr, off, n, c, v.Ver}
			return []*State{st}
		}
	case VRef: // pointer to array
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !e.nonNil(st, x, v.R) {
			return nil
		}
		lo, ok1 := get(x.Low, K(0))
		hi, ok2 := get(x.High, K(a.Len()))
		mx, ok3 := get(x.Max, K(a.Len()))
		if !ok1 || !ok2 || !ok3 {
			break
		}
		if !check(lo, hi, mx, x.Max != nil) {
			return nil
		}
		n, ok2 := hi.sub(lo)
		c, ok3 := mx.sub(lo)
		if ok2 && ok3 {
			f.regs[x] = VSlice{v.R, lo, n, c, 0}
			return []*State{st}
		}
	}
	f.regs[x] = e.fresh(st, x, "", x.Type())
	return []*State{st}
}

func (e *Engine) convert(st *State, in ssa.Instruction, xv ssa.Value, to types.Type) Val {
	v := e.value(st, xv)
	from := xv.Type()
	_, fi := intRange(from)
	_, ti := intRange(to)
	switch {
	case fi && ti:
		if i, ok := v.(VInt); ok {
			key := e.pureOp(st, "conv "+from.Underlying().String()+" "+to.Underlying().String(), i.L)
			return e.purely(st, key, func() Val { return e.convertInt(st, in, i.L, from, to) })
		}
	case fi && isFloat(to):
		if i, ok := v.(VInt); ok {
			return e.linTerm(i.L)
		}
	case isFloat(from) && isFloat(to):
		if t, ok := v.(VTerm); ok {
			return t
		}
	case isFloat(from) && ti:
		if t, ok := v.(VTerm); ok {
			return e.termInt(st, t.P, to)
		}
	case isString(to):
		if s, ok := v.(VSlice); ok {
			if sl, isSl := from.Underlying().(*types.Slice); isSl {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return VStr{Len: s.Len, Gh: e.ghostOf(st, s, sl.Elem())}
				}
			}
		}
	case isString(from):
		if s, ok := v.(VStr); ok {
			if sl, isSl := to.Underlying().(*types.Slice); isSl {
				r := e.fresh(st, in, "", to).(VSlice)
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					d, _ := r.Len.sub(s.Len)
					st.num.addEQ(d)
				} else if d, ok := s.Len.sub(r.Len); ok {
					st.num.addGE(d)
				}
				return r
			}
		}
	}
	return e.fresh(st, in, "", to)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	r, ok := e.value(st, x.X).(VRef)
	f := st.top()
	result := func(s *State, v Val, okv *Cond) *State {
		if x.CommaOk {
			s.top().regs[x] = VAgg{[]Val{v, VBool{okv}}}
		} else {
			s.top().regs[x] = v
		}
		return s
	}
	if ok {
		i := st.info(r.R)
		toIface := types.IsInterface(x.AssertedType)
		match := func(t types.Type) bool {
			if toIface {
				return types.Implements(t, x.AssertedType.Underlying().(*types.Interface))
			}
			return types.Identical(t, x.AssertedType)
		}
		if !i.Unk {
			var good []dyn
			bad := i.Nil != no
			for _, d := range i.Dyn {
				if match(d.T) {
					good = append(good, d)
				} else {
					bad = true
				}
			}
			if !x.CommaOk {
				e.oblige(st, x, "type assertion", !bad, nil)
			}
			var out []*State
			for k, d := range good {
				s := st.clone()
				var v Val = d.V
				if toIface {
					v = VRef{e.newRef(s, x, fmt.Sprintf("ta%d", k), &RefInfo{Nil: no, Dyn: []dyn{d}})}
				}
				out = append(out, result(s, v, condTrue))
			}
			if bad && x.CommaOk {
				out = append(out, result(st.clone(), e.zero(x.AssertedType), condFalse))
			}
			return out
		}
		if !x.CommaOk {
			e.oblige(st, x, "type assertion", false, nil)
		}
	}
	if x.CommaOk {
		s := st.clone()
		result(s, e.zero(x.AssertedType), condFalse)
		v := e.fresh(st, x, "", x.AssertedType)
		if vr, ok := v.(VRef); ok {
			st.refs[vr.R] = &RefInfo{Nil: no, Unk: true}
			if _, isPtr := x.AssertedType.Underlying().(*types.Pointer); isPtr {
				st.refs[vr.R] = &RefInfo{Nil: maybe, Unk: true}
			}
		}
		result(st, v, condTrue)
		return []*State{st, s}
	}
	f.regs[x] = e.fresh(st, x, "", x.AssertedType)
	return []*State{st}
}

func (e *Engine) next(st *State, x *ssa.Next) []*State {
	tt := x.Type().(*types.Tuple)
	f := st.top()
	var k, v Val = VTop{}, VTop{}
	if x.IsString {
		k = VInt{e.freshItv(st, x, "k", itv{0, maxLen})}
		v = e.fresh(st, x, "v", types.Typ[types.Int32])
		if s, ok := e.value(st, x.Iter).(VStr); ok {
			s2 := st.clone()
			s2.top().regs[x] = VAgg{[]Val{VBool{condFalse}, VInt{K(0)}, VInt{K(0)}}}
			if d, ok := s.Len.sub(k.(VInt).L); ok {
				st.num.addGE(d.plus(-1))
			}
			f.regs[x] = VAgg{[]Val{VBool{condTrue}, k, v}}
			if st.num.bot {
				return []*State{s2}
			}
			return []*State{st, s2}
		}
	} else if m, ok := e.value(st, x.Iter).(VRef); ok {
		if b, isB := tt.At(1).Type().(*types.Basic); !isB || b.Kind() != types.Invalid {
			k = e.fresh(st, x, "k", tt.At(1).Type())
		}
		if b, isB := tt.At(2).Type().(*types.Basic); !isB || b.Kind() != types.Invalid {
			i := st.info(m.R)
			var sum Val
			for q, t := range i.Tg {
				if o := st.heap[t.Obj]; o != nil {
					if a, ok := locate(o.V, t.Path).(VArr); ok {
						if sum == nil {
							sum = a.Elem
						} else {
							sum = e.mergeSum(st, x, fmt.Sprintf("m%d", q), sum, a.Elem)
						}
					}
				}
			}
			if sum == nil || i.Unk {
				sum = VTop{}
			}
			v = e.instantiate(st, x, "v", tt.At(2).Type(), sum)
		}
	}
	if m, ok := e.value(st, x.Iter).(VRef); ok && !x.IsString && deletesAll(x) {
		// the loop ends with every entry deleted
		s2 := st.clone()
		e.emptyMap(s2, x, m.R)
		s2.top().regs[x] = VAgg{[]Val{VBool{condFalse}, k, v}}
		f.regs[x] = VAgg{[]Val{VBool{condTrue}, k, v}}
		return []*State{st, s2}
	}
	f.regs[x] = VAgg{[]Val{VBool{condUnk}, k, v}}
	return []*State{st}
}

// deletesAll reports whether the loop of x does nothing but delete the map's
// entries.
func deletesAll(x *ssa.Next) bool {
	rg, ok := x.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	b := x.Block()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if c, ok := iff.Cond.(*ssa.Extract); !ok || c.Tuple != x || c.Index != 0 {
		return false
	}
	body := b.Succs[0]
	if len(body.Succs) != 1 || body.Succs[0] != b {
		return false
	}
	deletes := false
	for _, in := range body.Instrs {
		switch y := in.(type) {
		case *ssa.Extract, *ssa.Jump, *ssa.DebugRef:
		case *ssa.FieldAddr:
		case *ssa.UnOp:
		case *ssa.Call:
			bi, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "delete" || !samePlace(y.Call.Args[0], rg.X) {
				return false
			}
			k, ok := y.Call.Args[1].(*ssa.Extract)
			if !ok || k.Tuple != x || k.Index != 1 {
				return false
			}
			deletes = true
		default:
			return false
		}
	}
	return deletes
}

// samePlace reports whether two values are loads of the same place. There must
// be no write between them.
func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePlace(x.X, y.X)
	}
	return false
}

// onlyMap returns the object a reference to a map is to, if it is known.
func (e *Engine) onlyMap(st *State, r RefID) (Target, *Obj, VArr, bool) {
	i := st.info(r)
	if i.Unk || len(i.Tg) != 1 {
		return Target{}, nil, VArr{}, false
	}
	o := st.heap[i.Tg[0].Obj]
	if o == nil || o.Weak {
		return Target{}, nil, VArr{}, false
	}
	a, ok := locate(o.V, i.Tg[0].Path).(VArr)
	return i.Tg[0], o, a, ok
}

// setMapLen notes that a map's length changed.
func (e *Engine) setMapLen(st *State, in ssa.Instruction, r RefID, iv itv) {
	t, o, _, ok := e.onlyMap(st, r)
	if !ok {
		return
	}
	n := e.freshItv(st, in, "maplen", iv)
	st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(v Val) Val { a := v.(VArr); a.N = n; return a }), o.Weak, o.T}
}

// emptyMap removes a map's entries.
func (e *Engine) emptyMap(st *State, in ssa.Instruction, r RefID) {
	t, o, _, ok := e.onlyMap(st, r)
	if !ok {
		return
	}
	st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(v Val) Val {
		a := v.(VArr)
		a.N, a.Elem = K(0), e.summarize(e.zero(a.El))
		return a
	}), o.Weak, o.T}
}

// mapLen returns how many entries a map has.
func (e *Engine) mapLen(st *State, r RefID) (Lin, bool) {
	i := st.info(r)
	if i.Nil == yes {
		return K(0), true
	}
	_, _, a, ok := e.onlyMap(st, r)
	if !ok || i.Nil != no && !(len(a.N.t) == 0 && a.N.c == 0) {
		return Lin{}, false
	}
	return a.N, true
}
