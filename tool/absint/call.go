package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callAll runs a call on several states at once.
func (e *Engine) callAll(d *fnData, b *ssa.BasicBlock, i int, x *ssa.Call, sts []*State) []*State {
	c := x.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		var out []*State
		for _, s := range sts {
			for _, t := range e.builtin(s, x, bi) {
				if !t.num.bot {
					out = append(out, t)
				}
			}
		}
		return out
	}
	type target struct {
		fn   *ssa.Function
		sts  []*State
		args [][]Val
	}
	var order []*ssa.Function
	tg := map[*ssa.Function]*target{}
	add := func(fn *ssa.Function, s *State, args []Val) {
		t := tg[fn]
		if t == nil {
			t = &target{fn: fn}
			tg[fn] = t
			order = append(order, fn)
		}
		t.sts = append(t.sts, s)
		t.args = append(t.args, args)
	}
	var out []*State
	live := d.liveAfter(b, i)
	for _, s := range sts {
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.value(s, a))
		}
		var fv Val
		if _, ok := c.Value.(*ssa.Function); !ok {
			fv = e.value(s, c.Value)
		}
		f := s.top()
		for v := range f.regs {
			if !live[v] {
				delete(f.regs, v)
			}
		}
		switch {
		case c.IsInvoke():
			r, ok := fv.(VRef)
			if !ok {
				out = append(out, e.unknownCall(s, x, args))
				continue
			}
			if !e.nonNil(s, x, r.R) {
				continue
			}
			info := s.info(r.R)
			if info.Unk || len(info.Dyn) == 0 {
				out = append(out, e.unknownCall(s, x, args))
				continue
			}
			for _, dy := range info.Dyn {
				m := e.Prog.LookupMethod(dy.T, c.Method.Pkg(), c.Method.Name())
				t := s.clone()
				t.refs[r.R] = &RefInfo{Nil: no, Dyn: []dyn{dy}}
				if m == nil {
					out = append(out, e.unknownCall(t, x, args))
					continue
				}
				add(m, t, append([]Val{dy.V}, args...))
			}
		case c.StaticCallee() != nil:
			fn := c.StaticCallee()
			if cl, ok := c.Value.(*ssa.MakeClosure); ok {
				_ = cl
				r, ok := fv.(VRef)
				if ok && len(s.info(r.R).Fns) == 1 {
					args = append(args, s.info(r.R).Fns[0].Binds...)
				}
			}
			add(fn, s, args)
		default:
			r, ok := fv.(VRef)
			if !ok {
				out = append(out, e.unknownCall(s, x, args))
				continue
			}
			if !e.nonNil(s, x, r.R) {
				continue
			}
			info := s.info(r.R)
			if info.Unk || len(info.Fns) == 0 {
				out = append(out, e.unknownCall(s, x, args))
				continue
			}
			for _, f := range info.Fns {
				t := s
				if len(info.Fns) > 1 {
					t = s.clone()
					t.refs[r.R] = &RefInfo{Nil: no, Fns: []fnVal{f}}
				}
				add(f.Fn, t, append(append([]Val(nil), args...), f.Binds...))
			}
		}
	}
	for _, fn := range order {
		t := tg[fn]
		if r := e.Replace[fn]; r != nil {
			fn = r
		}
		if r := e.Recursion[fn]; r != nil && t.sts[0].running(fn) {
			fn = r
		}
		if rs, ok := e.external(fn, x, t.sts, t.args); ok {
			out = append(out, rs...)
			continue
		}
		if len(fn.Blocks) == 0 || !e.canInline(fn, t.sts[0]) {
			for k, s := range t.sts {
				e.note("call of %s not analysed", fn)
				out = append(out, e.unknownCall(s, x, t.args[k]))
			}
			continue
		}
		e.stats.calls++
		for k, s := range t.sts {
			nf := &Frame{fn, e.subCtx(s.top().ctx, x), map[ssa.Value]Val{}, s.gtag}
			n := 0
			for _, p := range fn.Params {
				nf.regs[p] = t.args[k][n]
				n++
			}
			for _, p := range fn.FreeVars {
				if n < len(t.args[k]) {
					nf.regs[p] = t.args[k][n]
				} else {
					nf.regs[p] = e.fresh(s, x, "fv"+p.Name(), p.Type())
				}
				n++
			}
			if e.pathsOn(s) {
				s.hist = &hist{x.Pos(), "calls " + fn.Name(), s.hist}
			}
			s.frames = append(s.frames, nf)
			s.gtag = ""
		}
		for _, r := range e.runFn(fn, t.sts) {
			res := r.ret
			r.ret = nil
			if fn.Signature.Results().Len() > 0 {
				r.top().regs[x] = res
			}
			out = append(out, r)
		}
	}
	if len(out) > 1 {
		out = e.mergeGroups(out, siteKey{out[0].top().ctx, x, "call"}, nil)
	}
	return out
}

// running reports whether fn is being called.
func (s *State) running(fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) canInline(fn *ssa.Function, st *State) bool {
	if e.Inline != nil && !e.Inline(fn) {
		return false
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= 2 {
		return false
	}
	return len(st.frames) < 40
}

// unknownCall gives arbitrary results. Slices passed may be overwritten.
func (e *Engine) unknownCall(s *State, x *ssa.Call, args []Val) *State {
	c := x.Common()
	for k, a := range args {
		var at types.Type
		if k < len(c.Args) {
			at = c.Args[k].Type()
		}
		sl, ok := a.(VSlice)
		if !ok {
			if r, isRef := a.(VRef); isRef && r.R != 0 && at != nil {
				if _, isPtr := at.Underlying().(*types.Pointer); isPtr {
					e.note("pointer passed to an unknown function at %s", e.pos(x))
				}
			}
			continue
		}
		e.wroteRange(s, x, sl, K(0), sl.Cap)
		for q, t := range s.info(sl.Arr).Tg {
			o := s.heap[t.Obj]
			if o == nil {
				continue
			}
			if arr, ok := locate(o.V, t.Path).(VArr); ok {
				t.Path += string([]byte{elemByte})
				t.Ver = -1
				t.Idx = Lin{}
				base, _, _ := splitElem(t.Path)
				s.heap[t.Obj] = &Obj{update(o.V, base, func(v Val) Val {
					if a2, ok := v.(VArr); ok {
						a2.Elem = e.mergeSum(s, x, fmt.Sprintf("uk%d", q), a2.Elem, e.anySum(arr.El, 0))
						a2.Kn, a2.Gh = nil, nil
						return a2
					}
					return v
				}), o.Weak, o.T}
			}
		}
	}
	e.setResult(s, x, e.fresh(s, x, "", x.Type()))
	return s
}

func (e *Engine) setResult(s *State, x *ssa.Call, v Val) {
	if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 0 {
		return
	}
	s.top().regs[x] = v
}

// external models functions of other packages.
func (e *Engine) external(fn *ssa.Function, x *ssa.Call, sts []*State, args [][]Val) ([]*State, bool) {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	name := path + "." + fn.Name()
	if fn.Name() == "verifAssert" {
		for k, s := range sts {
			c, _ := args[k][0].(VBool)
			if c.C == nil {
				c.C = condUnk
			}
			n := s.clone()
			n.assume(c.C.not())
			e.oblige(s, x, "assertion", n.num.bot || c.C.K == cTrue, func() string { return "not implied\n" + e.Dump(s) })
			s.assume(c.C)
		}
		return sts, true
	}
	if fn.Name() == "verifAssume" {
		var out []*State
		for k, s := range sts {
			if c, ok := args[k][0].(VBool); ok {
				s.assume(c.C)
			}
			if !s.num.bot {
				out = append(out, s)
			}
		}
		return out, true
	}
	if strings.HasPrefix(fn.Name(), "verif") {
		g := false
		for k, s := range sts {
			g = e.ghostCall(fn, x, s, args[k]) || e.intrinsic(fn, x, s, args[k])
		}
		if g {
			return sts, true
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		for _, s := range sts {
			s.top().regs[x] = VRef{e.newRef(s, x, "err", &RefInfo{Nil: no, Unk: true})}
		}
		return sts, true
	}
	switch path {
	case "fmt", "math", "log", "os", "strings", "strconv", "sort", "math/bits":
		for k, s := range sts {
			if path == "math" && isFloat(x.Type()) {
				key, ok := fn.Name(), true
				for _, a := range args[k] {
					t, isT := a.(VTerm)
					if ok = ok && isT; ok {
						key += " " + t.P.key
					}
				}
				if ok {
					s.top().regs[x] = VTerm{fatom("(" + key + ")")}
					continue
				}
			}
			if path == "math/bits" && e.bitsCall(s, fn, x, args[k]) {
				continue
			}
			e.unknownCall(s, x, args[k])
		}
		return sts, true
	}
	return nil, false
}

func (e *Engine) builtin(st *State, x *ssa.Call, bi *ssa.Builtin) []*State {
	args := x.Call.Args
	one := []*State{st}
	set := func(v Val) []*State {
		st.top().regs[x] = v
		return one
	}
	switch bi.Name() {
	case "len", "cap":
		switch v := e.value(st, args[0]).(type) {
		case VSlice:
			if bi.Name() == "cap" {
				if v.Arr != 0 && e.allWeak(st, v.Arr) {
					c := e.freshItv(st, x, "cap", itv{0, maxLen})
					st.num.addGE(c.minus(v.Cap))
					return set(VInt{c})
				}
				return set(VInt{v.Cap})
			}
			return set(VInt{v.Len})
		case VStr:
			return set(VInt{v.Len})
		case VRef:
			if n, ok := e.mapLen(st, v.R); ok {
				return set(VInt{n})
			}
		}
		return set(VInt{e.freshItv(st, x, "len", itv{0, maxLen})})
	case "append":
		return e.appendTo(st, x)
	case "copy":
		return e.copyTo(st, x)
	case "delete":
		if v, ok := e.value(st, args[0]).(VRef); ok {
			e.setMapLen(st, x, v.R, itv{0, maxLen})
		}
		return one
	case "print", "println", "close":
		return one
	case "min", "max":
		return e.minmax(st, x, bi.Name() == "max")
	case "clear":
		switch v := e.value(st, args[0]).(type) {
		case VRef:
			e.emptyMap(st, x, v.R)
		case VSlice:
			e.wroteRange(st, x, v, K(0), v.Len)
			for k, t := range st.info(v.Arr).Tg {
				t.Path += string([]byte{elemByte})
				t.Ver = -1
				e.write(st, x, fmt.Sprintf("cl%d", k), t, e.zero(args[0].Type().Underlying().(*types.Slice).Elem()), false)
			}
		}
		return one
	case "ssa:wrapnilchk":
		v := e.value(st, args[0])
		if r, ok := v.(VRef); ok && !e.nonNil(st, x, r.R) {
			return nil
		}
		return set(v)
	}
	e.note("builtin %s at %s", bi.Name(), e.pos(x))
	if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 0 {
		return one
	}
	return set(e.fresh(st, x, "", x.Type()))
}

func (e *Engine) minmax(st *State, x *ssa.Call, mx bool) []*State {
	if _, ok := intRange(x.Type()); !ok {
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return []*State{st}
	}
	cur := []*State{st}
	type item struct {
		s *State
		l Lin
	}
	var items []item
	first, ok := e.value(st, x.Call.Args[0]).(VInt)
	if !ok {
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return cur
	}
	items = []item{{st, first.L}}
	for _, a := range x.Call.Args[1:] {
		var next []item
		for _, it := range items {
			v, ok := e.value(it.s, a).(VInt)
			if !ok {
				v = VInt{e.freshInt(it.s, x, "mm", x.Type())}
			}
			d, ok := it.l.sub(v.L) // cur - v
			if !ok {
				next = append(next, item{it.s, e.freshInt(it.s, x, "mm2", x.Type())})
				continue
			}
			if mx {
				d = d.neg()
			}
			// keep v when d >= 1 (min: cur > v), else keep cur
			t := it.s.clone()
			t.num.addGE(d.plus(-1))
			if !t.num.bot {
				next = append(next, item{t, v.L})
			}
			it.s.num.addGE(d.neg())
			if !it.s.num.bot {
				next = append(next, item{it.s, it.l})
			}
		}
		items = next
	}
	var out []*State
	for _, it := range items {
		it.s.top().regs[x] = VInt{it.l}
		out = append(out, it.s)
	}
	if len(out) > 1 && e.pathsOn(out[0]) && (!e.Flat || e.loops == 0) {
		for k, s := range out {
			s.trace += strconv.Itoa(k)
		}
		return out
	}
	if len(out) > 1 {
		g := out[0]
		site := siteKey{g.top().ctx, x, "minmax"}
		for _, s := range out[1:] {
			g = e.join(g, s, site, false)
		}
		return []*State{g}
	}
	return out
}

// elemsOf returns a summary of the elements a slice or string may hold.
func (e *Engine) elemsOf(st *State, in ssa.Instruction, v Val, el types.Type) Val {
	s, ok := v.(VSlice)
	if !ok {
		return e.anySum(el, 0)
	}
	i := st.info(s.Arr)
	if i.Unk {
		return VTop{}
	}
	var sum Val
	for k, t := range i.Tg {
		o := st.heap[t.Obj]
		if o == nil {
			return VTop{}
		}
		c := locate(o.V, t.Path)
		var el Val
		switch a := c.(type) {
		case VArr:
			el = a.Elem
		case VAgg:
			for q, f := range a.F {
				w := f
				if !o.Weak {
					w = st.weaken(f)
				}
				if el == nil {
					el = w
				} else {
					el = e.mergeSum(st, in, fmt.Sprintf("el%d.%d", k, q), el, w)
				}
			}
		default:
			return VTop{}
		}
		if sum == nil {
			sum = el
		} else {
			sum = e.mergeSum(st, in, fmt.Sprintf("els%d", k), sum, el)
		}
	}
	return sum
}

// addElems weakly adds sum to all elements of the arrays of s.
func (e *Engine) addElems(st *State, in ssa.Instruction, tag string, s VSlice, sum Val, keepKn func(known) bool) {
	for k, t := range st.info(s.Arr).Tg {
		o := st.heap[t.Obj]
		if o == nil {
			continue
		}
		tg := fmt.Sprintf("%s%d", tag, k)
		base, _, nested := splitElem(t.Path)
		st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(c Val) Val {
			switch a := c.(type) {
			case VArr:
				if sum != nil {
					a.Elem = e.mergeSum(st, in, tg, a.Elem, sum)
				}
				var kn []known
				for _, q := range a.Kn {
					if !nested && keepKn != nil && keepKn(q) {
						kn = append(kn, q)
					}
				}
				if a.Gh != nil {
					st.lost = true
				}
				a.Kn, a.Gh = kn, nil
				return a
			case VAgg:
				n := VAgg{make([]Val, len(a.F))}
				for q := range a.F {
					if sum == nil {
						n.F[q] = a.F[q]
						continue
					}
					w := a.F[q]
					if !o.Weak {
						w = st.weaken(w)
					}
					m := e.mergeSum(st, in, fmt.Sprintf("%s.%d", tg, q), w, sum)
					if !o.Weak {
						var el types.Type
						if sl, ok := in.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice); ok {
							el = sl.Elem()
						}
						m = e.instantiate(st, in, fmt.Sprintf("%s.%di", tg, q), el, m)
					}
					n.F[q] = m
				}
				return n
			}
			return c
		}), o.Weak, o.T}
		_ = base
	}
}

func (e *Engine) appendTo(st *State, x *ssa.Call) []*State {
	args := x.Call.Args
	el := x.Type().Underlying().(*types.Slice).Elem()
	s, ok := e.value(st, args[0]).(VSlice)
	if !ok {
		st.top().regs[x] = e.fresh(st, x, "", x.Type())
		return []*State{st}
	}
	if len(args) == 1 {
		st.top().regs[x] = s
		return []*State{st}
	}
	add := e.value(st, args[1])
	if e.Copies && e.appendCopy(st, x, s, add, el) {
		return []*State{st}
	}
	var n Lin
	switch a := add.(type) {
	case VSlice:
		n = a.Len
	case VStr:
		n = a.Len
	default:
		n = e.freshItv(st, x, "n", itv{0, maxLen})
	}
	sum := e.elemsOf(st, x, add, el)
	info := st.info(s.Arr)
	if nn, ok := s.Len.add(n); ok {
		e.wroteRange(st, x, s, s.Len, nn)
	}
	// The result may share the old array or be a new one; both are kept in
	// one object per append site unless an old array exists.
	var obj ObjID
	r := s.Arr
	if info.Nil != no || len(info.Tg) == 0 {
		obj = e.objAt(e.key(st, x, "arr"), fmt.Sprintf("append@%s", e.pos(x)), x.Type())
		if st.heap[obj] == nil {
			st.heap[obj] = &Obj{V: VArr{N: K(maxLen), Elem: sum, El: el}, T: x.Type()}
		} else {
			e.addElems(st, x, "ap", VSlice{Arr: e.newRef(st, x, "aptmp", &RefInfo{Nil: no, Tg: []Target{{Obj: obj}}})}, sum, nil)
		}
		// A nil or possibly nil slice: the result also holds the old elements.
		if len(info.Tg) > 0 {
			if old := e.elemsOf(st, x, s, el); old != nil {
				e.addElems(st, x, "ao", VSlice{Arr: e.newRef(st, x, "aptmp", &RefInfo{Nil: no, Tg: []Target{{Obj: obj}}})}, old, nil)
			}
		}
		ni := &RefInfo{Nil: no, Unk: info.Unk}
		has := false
		for _, t := range info.Tg {
			if t.Obj == obj && t.Path == "" {
				has = true
			}
			ni.Tg = append(ni.Tg, t)
		}
		if !has {
			ni.Tg = append(ni.Tg, Target{Obj: obj})
		}
		sortTargets(ni.Tg)
		r = e.newRef(st, x, "aref", ni)
	}
	nn, ok := s.Len.add(n)
	if !ok {
		nn = e.freshItv(st, x, "len", itv{0, maxLen})
	}
	// Slices longer than maxLen are outside the analysed inputs.
	st.num.addGE(K(maxLen).plus(0).minus(nn))
	if st.num.bot {
		return nil
	}
	// arrays with tracked cells cannot grow in place without splitting
	end, ok := s.Off.add(s.Len)
	ver := e.verAt(e.key(st, x, "ver"))
	e.addElems(st, x, "add", VSlice{Arr: r}, sum, func(k known) bool {
		d, ok2 := end.sub(k.idx)
		return ok && ok2 && st.num.entails(d.plus(-1))
	})
	// cells known in the old version are the same in the new one
	for _, t := range st.info(r).Tg {
		o := st.heap[t.Obj]
		if o == nil {
			continue
		}
		if a, ok := locate(o.V, t.Path).(VArr); ok && len(a.Kn) > 0 {
			st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(c Val) Val {
				a := c.(VArr)
				kn := append([]known(nil), a.Kn...)
				for _, k := range a.Kn {
					if k.ver == s.Ver && len(kn) < 8 {
						kn = append(kn, known{ver, k.idx, k.v})
					}
				}
				a.Kn = kn
				return a
			}), o.Weak, o.T}
		}
	}
	c := e.freshItv(st, x, "cap", itv{0, maxLen})
	if d, ok := c.sub(nn); ok {
		st.num.addGE(d)
	}
	st.top().regs[x] = VSlice{Arr: r, Off: s.Off, Len: nn, Cap: c, Ver: ver}
	// appending nothing to nil gives nil
	if info.Nil != no && !st.num.entails(n.plus(-1)) {
		i := *st.info(r)
		i.Nil = maybe
		st.refs[r] = &i
	}
	return []*State{st}
}

// maxExact is the largest array appending makes whose elements are tracked
// one by one.
const maxExact = 160

// appendCopy makes the result of append a new array, provided that what it is
// made of is known.
func (e *Engine) appendCopy(st *State, x *ssa.Call, s VSlice, add Val, el types.Type) bool {
	old, ok := e.exactElems(st, s)
	if !ok {
		return false
	}
	a, ok := add.(VSlice)
	if !ok {
		return false
	}
	more, ok := e.exactElems(st, a)
	if !ok || len(old)+len(more) > maxExact {
		return false
	}
	if len(more) == 0 {
		st.top().regs[x] = s
		return true
	}
	all := append(append([]Val(nil), old...), more...)
	n := len(all)
	tag := fmt.Sprintf("cp%d", n)
	o := e.alloc(st, x, tag, types.NewArray(el, int64(n)), VAgg{all})
	r := e.newRef(st, x, tag, &RefInfo{Nil: no, Tg: []Target{{Obj: o}}})
	st.top().regs[x] = VSlice{Arr: r, Len: K(int64(n)), Cap: K(int64(n)), Ver: e.verAt(e.key(st, x, "ver"))}
	return true
}

// exactElems returns the elements of a slice of a known number of them.
func (e *Engine) exactElems(st *State, s VSlice) ([]Val, bool) {
	n := st.num.itvOf(s.Len)
	if n.lo != n.hi {
		return nil, false
	}
	if n.lo == 0 {
		return nil, true
	}
	i := st.info(s.Arr)
	off := st.num.itvOf(s.Off)
	if len(i.Tg) != 1 || i.Unk || i.Nil != no || off.lo != off.hi {
		return nil, false
	}
	o := st.heap[i.Tg[0].Obj]
	if o == nil || o.Weak {
		return nil, false
	}
	a, ok := locate(o.V, i.Tg[0].Path).(VAgg)
	if !ok || off.lo < 0 || off.lo+n.lo > int64(len(a.F)) {
		return nil, false
	}
	return a.F[off.lo : off.lo+n.lo], true
}

func (l Lin) minus(m Lin) Lin {
	r, ok := l.sub(m)
	if !ok {
		return K(0)
	}
	return r
}

func (e *Engine) copyTo(st *State, x *ssa.Call) []*State {
	dst, ok := e.value(st, x.Call.Args[0]).(VSlice)
	src := e.value(st, x.Call.Args[1])
	el := x.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
	if ok {
		sum := e.elemsOf(st, x, src, el)
		if sum != nil {
			e.addElems(st, x, "copy", dst, sum, nil)
		}
	}
	n := e.freshItv(st, x, "n", itv{0, maxLen})
	if ok {
		st.num.addGE(dst.Len.minus(n))
	}
	switch s := src.(type) {
	case VSlice:
		st.num.addGE(s.Len.minus(n))
	case VStr:
		st.num.addGE(s.Len.minus(n))
	}
	if ok {
		e.wroteRange(st, x, dst, K(0), n)
	}
	st.top().regs[x] = VInt{n}
	return []*State{st}
}

var _ = token.ADD
