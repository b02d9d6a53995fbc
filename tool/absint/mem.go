package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// at identifies where a fresh symbol is created.
func (e *Engine) key(st *State, in interface{}, tag string) memoKey {
	if e.pure != "" {
		return memoKey{0, pureAt(e.pure), tag}
	}
	return memoKey{st.top().ctx, in, tag}
}

// freshInt returns a new unknown of the type's range.
func (e *Engine) freshInt(st *State, in interface{}, tag string, t types.Type) Lin {
	r, _ := intRange(t)
	return V(e.sym(e.key(st, in, tag), r))
}

func (e *Engine) freshItv(st *State, in interface{}, tag string, r itv) Lin {
	if r.lo == r.hi {
		return K(r.lo)
	}
	s := e.sym(e.key(st, in, tag), topItv)
	if r != topItv && !st.num.bot {
		st.num.addItv(V(s), r)
	}
	return V(s)
}

// maxLen bounds the length of slices and strings.
const maxLen = 1<<31 - 1

// fresh returns an unknown value of type t that came from outside.
func (e *Engine) fresh(st *State, in interface{}, tag string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{condUnk}
		}
		if u.Info()&types.IsString != 0 {
			return VStr{Len: e.freshItv(st, in, tag+".len", itv{0, maxLen})}
		}
		if _, ok := intRange(t); ok {
			return VInt{e.freshInt(st, in, tag, t)}
		}
		return VTop{}
	case *types.Slice:
		r := e.refAt(e.key(st, in, tag+".arr"))
		o := e.objAt(memoKey{0, nil, "foreign " + t.String()}, "foreign "+t.String(), t)
		if st.heap[o] == nil {
			st.heap[o] = &Obj{V: VArr{Elem: e.anySum(u.Elem(), 0), El: u.Elem(), N: K(maxLen)}, Weak: true, T: t}
		}
		st.refs[r] = &RefInfo{Nil: maybe, Tg: []Target{{Obj: o, Ver: e.verAt(e.key(st, in, tag+".ver"))}}}
		n := e.freshItv(st, in, tag+".len", itv{0, maxLen})
		return VSlice{Arr: r, Len: n, Cap: n, Ver: e.verAt(e.key(st, in, tag+".ver"))}
	case *types.Struct:
		a := VAgg{make([]Val, u.NumFields())}
		for i := range a.F {
			a.F[i] = e.fresh(st, in, fmt.Sprintf("%s.%d", tag, i), u.Field(i).Type())
		}
		return a
	case *types.Array:
		if isAggArray(u) {
			a := VAgg{make([]Val, u.Len())}
			for i := range a.F {
				a.F[i] = e.fresh(st, in, fmt.Sprintf("%s.%d", tag, i), u.Elem())
			}
			return a
		}
		return VArr{N: K(u.Len()), Elem: e.anySum(u.Elem(), 0), El: u.Elem()}
	case *types.Tuple:
		a := VAgg{make([]Val, u.Len())}
		for i := range a.F {
			a.F[i] = e.fresh(st, in, fmt.Sprintf("%s.%d", tag, i), u.At(i).Type())
		}
		return a
	}
	r := e.refAt(e.key(st, in, tag))
	st.refs[r] = &RefInfo{Nil: maybe, Unk: true}
	return VRef{r}
}

// anySum is the summary of arbitrary values of a type.
func (e *Engine) anySum(t types.Type, depth int) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{condUnk}
		}
		if u.Info()&types.IsString != 0 {
			return VAgg{[]Val{VRange{itv{0, maxLen}}}}
		}
		if r, ok := intRange(t); ok {
			return VRange{r}
		}
		return VTop{}
	case *types.Slice:
		return VTop{} // instantiated as an unknown slice
	case *types.Struct:
		a := VAgg{make([]Val, u.NumFields())}
		for i := range a.F {
			a.F[i] = e.anySum(u.Field(i).Type(), depth+1)
		}
		return a
	case *types.Array:
		if isAggArray(u) {
			a := VAgg{make([]Val, u.Len())}
			for i := range a.F {
				a.F[i] = e.anySum(u.Elem(), depth+1)
			}
			return a
		}
		return VArr{N: K(u.Len()), Elem: e.anySum(u.Elem(), depth+1), El: u.Elem()}
	}
	return VTop{}
}

// instantiate turns a summary into a value standing for one instance.
func (e *Engine) instantiate(st *State, in interface{}, tag string, t types.Type, v Val) Val {
	if _, ok := v.(VTop); ok {
		return e.fresh(st, in, tag, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case VRange:
			r, ok := intRange(t)
			if !ok {
				return VTop{}
			}
			if r.within(x.R) {
				return VInt{e.freshInt(st, in, tag, t)}
			}
			return VInt{e.freshItv(st, in, tag, x.R)}
		case VAgg:
			return VStr{Len: e.freshItv(st, in, tag+".len", x.F[0].(VRange).R)}
		}
		return v
	case *types.Slice:
		if x, ok := v.(VAgg); ok && len(x.F) == 4 {
			ver := e.verAt(e.key(st, in, tag+".ver"))
			n := e.freshItv(st, in, tag+".len", x.F[2].(VRange).R)
			if e.allWeak(st, x.F[0].(VRef).R) {
				return VSlice{Arr: x.F[0].(VRef).R, Len: n, Cap: n, Ver: ver}
			}
			c := e.freshItv(st, in, tag+".cap", x.F[3].(VRange).R)
			if d, ok := c.sub(n); ok {
				st.num.addGE(d)
			}
			return VSlice{Arr: x.F[0].(VRef).R, Off: e.freshItv(st, in, tag+".off", x.F[1].(VRange).R), Len: n, Cap: c, Ver: ver}
		}
		return v
	case *types.Struct:
		if x, ok := v.(VAgg); ok {
			a := VAgg{make([]Val, len(x.F))}
			for i := range a.F {
				a.F[i] = e.instantiate(st, in, fmt.Sprintf("%s.%d", tag, i), u.Field(i).Type(), x.F[i])
			}
			return a
		}
	case *types.Array:
		if x, ok := v.(VAgg); ok {
			a := VAgg{make([]Val, len(x.F))}
			for i := range a.F {
				a.F[i] = e.instantiate(st, in, fmt.Sprintf("%s.%d", tag, i), u.Elem(), x.F[i])
			}
			return a
		}
	}
	return v
}

// addSum weakly adds value v to the summary old.
func (e *Engine) addSum(st *State, in interface{}, tag string, old, v Val) Val {
	return e.mergeSum(st, in, tag, old, st.weaken(v))
}

// mergeSum joins two summaries.
func (e *Engine) mergeSum(st *State, in interface{}, tag string, a, b Val) Val {
	if _, ok := a.(VTop); ok {
		return a
	}
	switch x := a.(type) {
	case VRange:
		if y, ok := b.(VRange); ok {
			return VRange{x.R.join(y.R)}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if x.C.eq(y.C) {
				return x
			}
			return VBool{condUnk}
		}
	case VTerm:
		if y, ok := b.(VTerm); ok && x.P.key == y.P.key {
			return x
		}
	case VRef:
		if y, ok := b.(VRef); ok {
			return VRef{e.mergeRef(st, in, tag, x.R, y.R)}
		}
	case VAgg:
		if y, ok := b.(VAgg); ok && len(y.F) == len(x.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = e.mergeSum(st, in, fmt.Sprintf("%s.%d", tag, i), x.F[i], y.F[i])
			}
			return VAgg{f}
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			x.Elem = e.mergeSum(st, in, tag+".e", x.Elem, y.Elem)
			x.Kn, x.Gh = nil, nil
			return x
		}
	}
	return VTop{}
}

// mergeRef returns a reference to whatever r or q refers to.
func (e *Engine) mergeRef(st *State, in interface{}, tag string, r, q RefID) RefID {
	if r == q {
		return r
	}
	a, b := st.info(r), st.info(q)
	if len(b.Tg) == 0 && len(b.Dyn) == 0 && len(b.Fns) == 0 && !b.Unk && (a.Nil == b.Nil || a.Nil == maybe) {
		return r
	}
	n := e.refAt(e.key(st, in, tag+".merge"))
	m := &RefInfo{Nil: a.Nil.join(b.Nil), Unk: a.Unk || b.Unk}
	m.Tg = append(m.Tg, a.Tg...)
outer:
	for _, t := range b.Tg {
		for i, u := range m.Tg {
			if u.Obj == t.Obj && u.Path == t.Path {
				if !u.Idx.eq(t.Idx) || u.Ver != t.Ver {
					m.Tg[i].Idx = e.freshItv(st, in, tag+".mi", topItv)
					m.Tg[i].Ver = e.verAt(e.key(st, in, tag+".mv"))
				}
				continue outer
			}
		}
		m.Tg = append(m.Tg, t)
	}
	sortTargets(m.Tg)
	m.Dyn = append(m.Dyn, a.Dyn...)
	for _, d := range b.Dyn {
		found := false
		for i, x := range m.Dyn {
			if types.Identical(x.T, d.T) {
				found = true
				if fmt.Sprint(x.V) != fmt.Sprint(d.V) {
					m.Dyn[i].V = e.fresh(st, in, tag+".dyn", d.T)
				}
			}
		}
		if !found {
			m.Dyn = append(m.Dyn, d)
		}
	}
	m.Fns = append(m.Fns, a.Fns...)
	for _, f := range b.Fns {
		found := false
		for _, g := range m.Fns {
			if g.Fn == f.Fn {
				found = true
				if len(f.Binds) > 0 {
					m.Unk = true
				}
			}
		}
		if !found {
			m.Fns = append(m.Fns, f)
		}
	}
	st.refs[n] = m
	return n
}

// locate returns the container value at path, and a function replacing it.
func locate(v Val, path string) Val {
	for i := 0; i < len(path); i++ {
		switch x := v.(type) {
		case VAgg:
			if int(path[i]) >= len(x.F) {
				return VTop{}
			}
			v = x.F[path[i]]
		case VArr:
			v = x.Elem
		default:
			return VTop{}
		}
	}
	return v
}

func update(v Val, path string, f func(Val) Val) Val {
	if path == "" {
		return f(v)
	}
	switch x := v.(type) {
	case VAgg:
		if int(path[0]) >= len(x.F) {
			return v
		}
		n := make([]Val, len(x.F))
		copy(n, x.F)
		n[path[0]] = update(n[path[0]], path[1:], f)
		return VAgg{n}
	case VArr:
		x.Elem = update(x.Elem, path[1:], f)
		return x
	}
	return VTop{}
}

func splitElem(path string) (base, rest string, elem bool) {
	for i := 0; i < len(path); i++ {
		if path[i] == elemByte {
			return path[:i], path[i+1:], true
		}
	}
	return path, "", false
}

// read loads the value at one target.
func (e *Engine) read(st *State, in ssa.Instruction, tag string, t Target, typ types.Type) Val {
	o := st.heap[t.Obj]
	if o == nil {
		e.note("read of an unknown object at %s", e.pos(in))
		return e.fresh(st, in, tag, typ)
	}
	base, rest, elem := splitElem(t.Path)
	if !elem {
		v := locate(o.V, t.Path)
		if o.Weak {
			return e.instantiate(st, in, tag, typ, v)
		}
		return v
	}
	arr, ok := locate(o.V, base).(VArr)
	if !ok {
		return e.fresh(st, in, tag, typ)
	}
	e.touchAt(st, o, arr, t)
	if arr.Gh != nil && !o.Weak && t.Ver != -1 && e.sameIdx(st, arr.Gh.Idx, t.Idx) {
		return locate(arr.Gh.V, rest)
	}
	if _, agg := arr.El.Underlying().(*types.Basic); (rest == "" || !agg) && !o.Weak {
		for _, k := range arr.Kn {
			if k.ver == t.Ver && e.sameIdx(st, k.idx, t.Idx) {
				return locate(k.v, rest)
			}
		}
	}
	if _, is := arr.El.Underlying().(*types.Struct); is && rest != "" && !o.Weak && t.Ver != -1 && len(arr.Kn) < 8 {
		w := e.instantiate(st, in, tag+"kn", arr.El, arr.Elem)
		if _, ok := w.(VAgg); ok {
			st.heap[t.Obj] = &Obj{update(o.V, base, func(c Val) Val {
				a := c.(VArr)
				a.Kn = append(append([]known(nil), a.Kn...), known{t.Ver, t.Idx, w})
				return a
			}), o.Weak, o.T}
			return locate(w, rest)
		}
	}
	v := e.instantiate(st, in, tag, typ, locate(arr.Elem, rest))
	if _, isInt := intRange(arr.El); isInt && rest == "" && !o.Weak && len(arr.Kn) < 8 {
		if _, ok := v.(VInt); ok {
			ver, idx := t.Ver, t.Idx
			st.heap[t.Obj] = &Obj{update(o.V, base, func(c Val) Val {
				a := c.(VArr)
				a.Kn = append(append([]known(nil), a.Kn...), known{ver, idx, v})
				return a
			}), o.Weak, o.T}
		}
	}
	return v
}

func (e *Engine) sameIdx(st *State, a, b Lin) bool {
	if a.eq(b) {
		return true
	}
	d, ok := a.sub(b)
	if !ok {
		return false
	}
	d = st.num.red(d)
	return len(d.t) == 0 && d.c == 0
}

// write stores v at one target. strong is false when the target is one of several.
func (e *Engine) write(st *State, in ssa.Instruction, tag string, t Target, v Val, strong bool) {
	o := st.heap[t.Obj]
	if o == nil {
		e.note("write to an unknown object at %s", e.pos(in))
		return
	}
	base, rest, elem := splitElem(t.Path)
	if !elem {
		if c, ok := v.(VBool); ok && c.C.K > cFalse && c.C.K < cAtom {
			v = VBool{condUnk}
		}
		st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(old Val) Val {
			if o.Weak {
				return e.addSum(st, in, tag, old, v)
			}
			if !strong {
				panic("weak write to a cell")
			}
			return v
		}), o.Weak, o.T}
		return
	}
	if e.OnWrite != nil && t.Ver != -1 {
		e.OnWrite(st, in, t.Obj, t.Idx, t.Idx.plus(1))
	}
	if a, ok := locate(o.V, base).(VArr); ok {
		e.touchAt(st, o, a, t)
	}
	// on followed paths the struct that is written is known too
	var str *known
	if a, ok := locate(o.V, base).(VArr); ok && strong && !o.Weak && t.Ver != -1 {
		if _, ok := a.El.Underlying().(*types.Struct); ok {
			str = &known{t.Ver, t.Idx, nil}
			for _, k := range a.Kn {
				if k.ver == t.Ver && e.sameIdx(st, k.idx, t.Idx) {
					str.v = k.v
				}
			}
			if str.v == nil && rest != "" {
				str.v = e.instantiate(st, in, tag+"kn", a.El, a.Elem)
			}
			w := v
			if c, ok := v.(VBool); ok && c.C.K > cFalse && c.C.K < cAtom {
				w = VBool{condUnk}
			}
			str.v = update(str.v, rest, func(Val) Val { return w })
			if _, ok := str.v.(VAgg); !ok {
				str = nil
			}
		}
	}
	o = st.heap[t.Obj]
	st.heap[t.Obj] = &Obj{update(o.V, base, func(c Val) Val {
		a, ok := c.(VArr)
		if !ok {
			return c
		}
		a.Elem = update(a.Elem, rest, func(old Val) Val { return e.addSum(st, in, tag, old, v) })
		var kn []known
		for _, k := range a.Kn {
			if d, ok := k.idx.sub(t.Idx); ok && st.num.excludes(d) && k.ver == t.Ver {
				kn = append(kn, k)
			}
		}
		if rest == "" && strong && !o.Weak {
			if _, ok := v.(VInt); ok && len(kn) < 8 {
				kn = append(kn, known{t.Ver, t.Idx, v})
			}
		}
		if str != nil && len(kn) < 8 {
			kn = append(kn, *str)
		}
		a.Kn = kn
		a.Gh = e.ghostWrite(st, a.Gh, t, rest, v, strong && !o.Weak)
		return a
	}), o.Weak, o.T}
}

// alloc creates an object for the site. If the site's previous object is
// still in use it becomes part of the site's summary of older objects.
func (e *Engine) alloc(st *State, in ssa.Instruction, tag string, t types.Type, v Val) ObjID {
	k := e.key(st, in, tag)
	o := e.objAt(k, fmt.Sprintf("%s@%s", t.String(), e.pos(in)), t)
	if st.heap[o] != nil {
		st.gc(e)
	}
	if st.heap[o] != nil {
		if _, ok := v.(VArr); ok {
			if it := e.iteration(st); it != "" {
				// one for each iteration of unrolled loops
				k.tag += it
				o = e.objAt(k, fmt.Sprintf("%s@%s%s", t.String(), e.pos(in), it), t)
			}
		}
	}
	if prev := st.heap[o]; prev != nil {
		if a, ok := prev.V.(VArr); ok {
			// arrays are summarised anyway
			nv := v.(VArr)
			a.Elem = e.mergeSum(st, in, tag+".re", a.Elem, nv.Elem)
			a.Kn, a.Gh = nil, nil
			a.N = nv.N
			st.heap[o] = &Obj{a, prev.Weak, t}
			return o
		}
		ko := k
		ko.tag += " old"
		old := e.objAt(ko, "older "+e.objName(o), t)
		sum := st.weaken(prev.V)
		if p := st.heap[old]; p != nil {
			sum = e.mergeSum(st, in, tag+".old", p.V, sum)
		}
		st.heap[old] = &Obj{sum, true, t}
		delete(st.heap, o)
		for r, i := range st.refs {
			hit := false
			for _, tg := range i.Tg {
				if tg.Obj == o {
					hit = true
				}
			}
			if !hit {
				continue
			}
			n := *i
			n.Tg = nil
			for _, tg := range i.Tg {
				if tg.Obj == o {
					tg.Obj = old
				}
				dup := false
				for _, u := range n.Tg {
					if u.Obj == tg.Obj && u.Path == tg.Path {
						dup = true
					}
				}
				if !dup {
					n.Tg = append(n.Tg, tg)
				}
			}
			for _, tg := range i.Tg {
				if tg.Obj != o {
					dup := false
					for _, u := range n.Tg {
						if u.Obj == tg.Obj && u.Path == tg.Path {
							dup = true
						}
					}
					if !dup {
						n.Tg = append(n.Tg, tg)
					}
				}
			}
			sortTargets(n.Tg)
			st.refs[r] = &n
		}
	}
	st.heap[o] = &Obj{v, false, t}
	return o
}

// iteration tells the iterations of unrolled loops apart.
func (e *Engine) iteration(st *State) (s string) {
	if !e.pathsOn(st) {
		return ""
	}
	for i, f := range st.frames {
		if e.open[f.fn] != 0 {
			continue
		}
		var parts []string
		for v := range e.data(f.fn).unr {
			if x, ok := f.regs[v].(VInt); ok {
				if c, ok := st.num.red(x.L).isConst(); ok && -1 <= c && c <= maxUnroll {
					parts = append(parts, fmt.Sprintf(" %d%s=%d", i, v.Name(), c))
				}
			}
		}
		sort.Strings(parts)
		s += strings.Join(parts, "")
	}
	return s
}

func (e *Engine) newRef(st *State, in interface{}, tag string, i *RefInfo) RefID {
	r := e.refAt(e.key(st, in, tag))
	st.refs[r] = i
	return r
}

func (e *Engine) pos(in ssa.Instruction) string {
	p := e.Fset.Position(in.Pos())
	if !p.IsValid() {
		p = e.Fset.Position(in.Parent().Pos())
	}
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

// allWeak reports whether r only refers to arrays of which no single cell is
// tracked. Offsets into them mean nothing and are kept at zero, and capacities
// are kept as the lower bound len.
func (e *Engine) allWeak(st *State, r RefID) bool {
	i := st.info(r)
	if i.Unk {
		return false
	}
	for _, t := range i.Tg {
		if o := st.heap[t.Obj]; o == nil || !o.Weak {
			return false
		}
	}
	return true
}

// wroteRange reports a write of elements [lo, hi) of slice sl to the hook.
func (e *Engine) wroteRange(st *State, in ssa.Instruction, sl VSlice, lo, hi Lin) {
	if e.OnWrite == nil {
		return
	}
	a, ok1 := sl.Off.add(lo)
	b, ok2 := sl.Off.add(hi)
	if !ok1 || !ok2 {
		a, b = K(negInf), K(posInf)
	}
	for _, t := range st.info(sl.Arr).Tg {
		e.OnWrite(st, in, t.Obj, a, b)
	}
}
