package absint

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A ghost is an array element at an arbitrary but fixed index whose contents
// are tracked exactly. What is shown for it holds for every element.

// splitGhost separates accesses to the tracked element from others.
func (e *Engine) splitGhost(st *State, n *RefInfo) []*State {
	if len(n.Tg) != 1 {
		return []*State{st}
	}
	t := n.Tg[0]
	o := st.heap[t.Obj]
	if o == nil || o.Weak || t.Ver == -1 {
		return []*State{st}
	}
	base, _, _ := splitElem(t.Path)
	a, ok := locate(o.V, base).(VArr)
	if !ok || a.Gh == nil {
		return []*State{st}
	}
	d, ok := t.Idx.sub(a.Gh.Idx)
	if !ok {
		return []*State{st}
	}
	var out []*State
	if s := st.clone(); true {
		s.num.addEQ(d)
		s.close()
		if !s.num.bot {
			s.gtag, s.touch = "=", "="
			if e.touches && e.pathsOn(s) {
				s.trace += "="
			}
			out = append(out, s)
		}
	}
	st.num.addNE(d)
	st.gtag, st.touch = "!", "!"
	if !st.num.bot {
		out = append(out, st)
	}
	return out
}

// touchAt notes whether an access is to the tracked element.
func (e *Engine) touchAt(st *State, o *Obj, a VArr, t Target) {
	if a.Gh == nil || o.Weak || t.Ver == -1 {
		return
	}
	st.touch = "?"
	if e.sameIdx(st, a.Gh.Idx, t.Idx) {
		st.touch = "="
	} else if d, ok := a.Gh.Idx.sub(t.Idx); ok && st.num.excludes(d) {
		st.touch = "!"
	}
}

// ghostOf returns the tracked element of a slice's array, its index relative
// to the slice.
func (e *Engine) ghostOf(st *State, s VSlice, el types.Type) *ghost {
	t, off, ok := e.findArr(st, s, el)
	if !ok {
		return nil
	}
	a, ok := locate(st.heap[t.Obj].V, t.Path).(VArr)
	if !ok || a.Gh == nil {
		return nil
	}
	i, ok := a.Gh.Idx.sub(off)
	if !ok {
		return nil
	}
	return &ghost{i, a.Gh.V, a.Gh.N, a.Gh.P}
}

// ghostWrite gives the tracked element after a write.
func (e *Engine) ghostWrite(st *State, g *ghost, t Target, rest string, v Val, strong bool) *ghost {
	if g == nil {
		return nil
	}
	if t.Ver == -1 {
		return nil
	}
	if e.sameIdx(st, g.Idx, t.Idx) {
		if !strong {
			return nil
		}
		if c, ok := v.(VBool); ok && c.C.K > cFalse && c.C.K < cAtom {
			v = VBool{condUnk}
		}
		n := g.N
		if (rest == "" || rest == "\x00") && n < 9 {
			n++
		}
		return &ghost{g.Idx, update(g.V, rest, func(Val) Val { return v }), n, g.P || n == g.N}
	}
	if d, ok := g.Idx.sub(t.Idx); ok && st.num.excludes(d) {
		return g
	}
	return nil
}

// findArr finds the array of el that v refers to or holds.
func (e *Engine) findArr(st *State, v Val, el types.Type) (Target, Lin, bool) {
	switch x := v.(type) {
	case VSlice:
		i := st.info(x.Arr)
		if len(i.Tg) != 1 || i.Unk {
			return Target{}, Lin{}, false
		}
		o := st.heap[i.Tg[0].Obj]
		if o == nil || o.Weak {
			return Target{}, Lin{}, false
		}
		if a, ok := locate(o.V, i.Tg[0].Path).(VArr); !ok || !types.Identical(a.El, el) {
			return Target{}, Lin{}, false
		}
		return i.Tg[0], x.Off, true
	case VRef:
		i := st.info(x.R)
		if len(i.Tg) != 1 || i.Unk {
			return Target{}, Lin{}, false
		}
		t := i.Tg[0]
		o := st.heap[t.Obj]
		if o == nil || o.Weak {
			return Target{}, Lin{}, false
		}
		var look func(v Val, path string) bool
		look = func(v Val, path string) bool {
			switch y := v.(type) {
			case VAgg:
				for k, f := range y.F {
					if k < 250 && look(f, path+string([]byte{byte(k)})) {
						return true
					}
				}
			case VArr:
				if types.Identical(y.El, el) {
					t.Path = path
					return true
				}
			}
			return false
		}
		if look(locate(o.V, t.Path), t.Path) {
			return t, K(0), true
		}
	}
	return Target{}, Lin{}, false
}

// ghostCall models the driver's intrinsics:
//
//	verifTrack(where, index, sample)  tracks an element
//	verifTrackNew(index, sample)      tracks an element of every array made from here on
//	verifWritten(where, sample) int   tells how often it was written
//	verifWrittenAt(slice, i, sample) int  the same, checking that slice[i] is the tracked element
//	verifForget(where, sample)        resets that count
//	verifPut(where, index, value)     tracks an element that has the value, and no other does
//	verifFill(slice, sample)          gives the elements values within the bounds of the sample's
func (e *Engine) ghostCall(fn *ssa.Function, x *ssa.Call, st *State, args []Val) bool {
	name := fn.Name()
	for _, n := range []string{"verifTrackNew", "verifTrack", "verifFill"} {
		// a driver may need them for several types
		if strings.HasPrefix(name, n) {
			name = n
			break
		}
	}
	switch name {
	case "verifTrackNew":
		if ix, ok := args[0].(VInt); ok {
			e.tracks = append(e.tracks, ghost{Idx: ix.L})
			e.trackEl = append(e.trackEl, fn.Signature.Params().At(1).Type())
		}
		return true
	case "verifTrack", "verifPut", "verifWritten", "verifWrittenAt", "verifForget", "verifFill":
	default:
		return false
	}
	ps := fn.Signature.Params()
	el := ps.At(ps.Len() - 1).Type()
	t, off, ok := e.findArr(st, args[0], el)
	if !ok {
		e.oblige(st, x, "tracked array is lost", false, func() string { return fn.Name() + "\n" + e.Dump(st) })
		if fn.Signature.Results().Len() > 0 {
			st.top().regs[x] = VInt{e.freshInt(st, x, "", types.Typ[types.Int])}
		}
		return true
	}
	o := st.heap[t.Obj]
	a := locate(o.V, t.Path).(VArr)
	set := func(f func(VArr) VArr) {
		st.heap[t.Obj] = &Obj{update(o.V, t.Path, func(v Val) Val { return f(v.(VArr)) }), o.Weak, o.T}
	}
	switch name {
	case "verifTrack", "verifPut":
		ix, ok := args[1].(VInt)
		if !ok {
			return true
		}
		i, ok := off.add(ix.L)
		if !ok {
			return true
		}
		v := e.instantiate(st, x, "gh", el, a.Elem)
		if name == "verifPut" {
			v = args[2]
		}
		set(func(a VArr) VArr { a.Gh = &ghost{Idx: i, V: v}; return a })
	case "verifFill":
		s := st.weaken(args[len(args)-1])
		set(func(a VArr) VArr { a.Elem, a.Kn, a.Gh = s, nil, nil; return a })
	case "verifForget":
		if a.Gh != nil {
			g := *a.Gh
			g.N, g.P = 0, false
			set(func(a VArr) VArr { a.Gh = &g; return a })
		}
	case "verifWritten", "verifWrittenAt":
		same := a.Gh != nil
		if ix, ok := args[1].(VInt); ok && same {
			i, ok := off.add(ix.L)
			same = ok && e.sameIdx(st, i, a.Gh.Idx)
		}
		if !same {
			e.oblige(st, x, "tracked element is lost", false, func() string { return e.Dump(st) })
			st.top().regs[x] = VInt{e.freshInt(st, x, "", types.Typ[types.Int])}
		} else {
			st.top().regs[x] = VInt{K(int64(a.Gh.N))}
		}
	}
	return true
}

// ghosts lists the tracked elements inside v.
func ghosts(out []*ghost, v Val) []*ghost {
	switch x := v.(type) {
	case VAgg:
		for _, f := range x.F {
			out = ghosts(out, f)
		}
	case VArr:
		if x.Gh != nil {
			out = append(out, x.Gh)
		}
	}
	return out
}

// track adds the tracked elements to the arrays inside a zero value.
func (e *Engine) track(v Val) Val {
	if len(e.tracks) == 0 {
		return v
	}
	switch x := v.(type) {
	case VAgg:
		n := VAgg{F: append([]Val(nil), x.F...)}
		for i, f := range x.F {
			n.F[i] = e.track(f)
		}
		return n
	case VArr:
		for i, t := range e.trackEl {
			if types.Identical(t, x.El) {
				x.Gh = &ghost{Idx: e.tracks[i].Idx, V: e.zero(t)}
			}
		}
		return x
	}
	return v
}
