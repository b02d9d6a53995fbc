package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// RefID names a reference whose possible referents are in State.refs.
// Reference 0 is nil.
type RefID int32

// ObjID names an abstract object.
type ObjID int32

// Val is an abstract value.
type Val interface{}

type (
	// VInt is an integer.
	VInt struct{ L Lin }
	// VBool is a boolean.
	VBool struct{ C *Cond }
	// VStr is a string.
	VStr struct {
		Len Lin
		S   *string
		Gh  *ghost // a tracked byte
	}
	// VSlice is a slice.
	VSlice struct {
		Arr           RefID
		Off, Len, Cap Lin
		Ver           int
	}
	// VRef is a pointer, map, channel, function or interface.
	VRef struct{ R RefID }
	// VAgg is a struct, a small array or a tuple.
	VAgg struct{ F []Val }
	// VArr is a large array: one summary for all elements.
	VArr struct {
		N    Lin // number of elements (not tracked for growing arrays)
		Elem Val // summary tree
		Sum  bool
		El   types.Type
		Kn   []known
		Gh   *ghost
	}
	// VRange is an integer inside a summary: only an interval is known.
	VRange struct{ R itv }
	// VTop is an untracked value (floats, complex, unknown).
	VTop struct{}
)

type known struct {
	ver int
	idx Lin
	v   Val
}

// ghost is a single element tracked exactly, at a fixed arbitrary index.
type ghost struct {
	Idx Lin
	V   Val
	N   int  // number of times it was overwritten
	P   bool // a part of it was
}

type tri int8

const (
	maybe tri = iota
	yes
	no
)

func (a tri) join(b tri) tri {
	if a == b {
		return a
	}
	return maybe
}

// Target is a place a reference may refer to.
type Target struct {
	Obj  ObjID
	Path string // one byte per step: a field or element number, or elemByte
	Idx  Lin    // element index when Path contains elemByte
	Ver  int
}

type dyn struct {
	T types.Type
	V Val
}

type fnVal struct {
	Fn    *ssa.Function
	Binds []Val
}

// RefInfo describes the referents.
type RefInfo struct {
	Nil tri
	Tg  []Target
	Dyn []dyn
	Fns []fnVal
	Unk bool // may also refer to something unknown
}

type condKind int8

const (
	cUnk condKind = iota
	cTrue
	cFalse
	cGE  // L >= 0
	cEQ  // L == 0
	cNE  // L != 0
	cNil // R is nil
	cNon // R is not nil
	cRefEq
	cRefNe
	cAtom // uninterpreted
	cNotAtom
)

// Cond is a condition.
type Cond struct {
	K    condKind
	L    Lin
	R, Q RefID
	S    string
}

var (
	condTrue  = &Cond{K: cTrue}
	condFalse = &Cond{K: cFalse}
	condUnk   = &Cond{K: cUnk}
)

func (c *Cond) not() *Cond {
	switch c.K {
	case cTrue:
		return condFalse
	case cFalse:
		return condTrue
	case cGE:
		return &Cond{K: cGE, L: c.L.neg().plus(-1)}
	case cEQ:
		return &Cond{K: cNE, L: c.L}
	case cNE:
		return &Cond{K: cEQ, L: c.L}
	case cNil:
		return &Cond{K: cNon, R: c.R}
	case cNon:
		return &Cond{K: cNil, R: c.R}
	case cRefEq:
		return &Cond{K: cRefNe, R: c.R, Q: c.Q}
	case cRefNe:
		return &Cond{K: cRefEq, R: c.R, Q: c.Q}
	case cAtom:
		return &Cond{K: cNotAtom, S: c.S}
	case cNotAtom:
		return &Cond{K: cAtom, S: c.S}
	}
	return condUnk
}

func (c *Cond) eq(d *Cond) bool {
	return c == d || c.K == d.K && c.K != cUnk && c.L.eq(d.L) && c.R == d.R && c.Q == d.Q && c.S == d.S
}

// leafMap rewrites the expressions and references of a value.
type leafMap struct {
	lin func(Lin) Lin
	ref func(RefID) RefID
	ver func(int) int
}

func (m *leafMap) val(v Val) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{m.lin(x.L)}
	case VBool:
		if x.C.K <= cFalse {
			return x
		}
		return VBool{&Cond{K: x.C.K, L: m.lin(x.C.L), R: m.ref(x.C.R), Q: m.ref(x.C.Q), S: x.C.S}}
	case VStr:
		r := VStr{Len: m.lin(x.Len), S: x.S}
		if x.Gh != nil {
			r.Gh = &ghost{m.lin(x.Gh.Idx), m.val(x.Gh.V), x.Gh.N, x.Gh.P}
		}
		return r
	case VSlice:
		r := VSlice{m.ref(x.Arr), m.lin(x.Off), m.lin(x.Len), m.lin(x.Cap), x.Ver}
		if m.ver != nil {
			r.Ver = m.ver(x.Ver)
		}
		return r
	case VRef:
		return VRef{m.ref(x.R)}
	case VAgg:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = m.val(x.F[i])
		}
		return VAgg{f}
	case VArr:
		r := x
		r.N = m.lin(x.N)
		r.Elem = m.val(x.Elem)
		r.Kn = make([]known, len(x.Kn))
		for i, k := range x.Kn {
			r.Kn[i] = known{k.ver, m.lin(k.idx), m.val(k.v)}
			if m.ver != nil {
				r.Kn[i].ver = m.ver(k.ver)
			}
		}
		if x.Gh != nil {
			r.Gh = &ghost{m.lin(x.Gh.Idx), m.val(x.Gh.V), x.Gh.N, x.Gh.P}
		}
		return r
	}
	return v
}

func (m *leafMap) info(r *RefInfo) *RefInfo {
	n := &RefInfo{Nil: r.Nil, Unk: r.Unk}
	for _, t := range r.Tg {
		t.Idx = m.lin(t.Idx)
		if m.ver != nil {
			t.Ver = m.ver(t.Ver)
		}
		n.Tg = append(n.Tg, t)
	}
	for _, d := range r.Dyn {
		n.Dyn = append(n.Dyn, dyn{d.T, m.val(d.V)})
	}
	for _, f := range r.Fns {
		g := fnVal{Fn: f.Fn}
		for _, b := range f.Binds {
			g.Binds = append(g.Binds, m.val(b))
		}
		n.Fns = append(n.Fns, g)
	}
	return n
}

// leaves visits expressions and references.
type visitor struct {
	lin func(Lin)
	ref func(RefID)
}

func (m *visitor) val(v Val) {
	switch x := v.(type) {
	case VInt:
		m.lin(x.L)
	case VBool:
		if x.C.K > cFalse {
			m.lin(x.C.L)
			m.ref(x.C.R)
			m.ref(x.C.Q)
		}
	case VStr:
		m.lin(x.Len)
		if x.Gh != nil {
			m.lin(x.Gh.Idx)
			m.val(x.Gh.V)
		}
	case VSlice:
		m.ref(x.Arr)
		m.lin(x.Off)
		m.lin(x.Len)
		m.lin(x.Cap)
	case VRef:
		m.ref(x.R)
	case VAgg:
		for _, f := range x.F {
			m.val(f)
		}
	case VArr:
		m.lin(x.N)
		m.val(x.Elem)
		for _, k := range x.Kn {
			m.lin(k.idx)
			m.val(k.v)
		}
		if x.Gh != nil {
			m.lin(x.Gh.Idx)
			m.val(x.Gh.V)
		}
	}
}

func (m *visitor) info(r *RefInfo) {
	for _, t := range r.Tg {
		m.lin(t.Idx)
	}
	for _, d := range r.Dyn {
		m.val(d.V)
	}
	for _, f := range r.Fns {
		for _, b := range f.Binds {
			m.val(b)
		}
	}
}

// intRange returns the value range of an integer type.
func intRange(t types.Type) (itv, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return topItv, false
	}
	switch b.Kind() {
	case types.Int8:
		return itv{-1 << 7, 1<<7 - 1}, true
	case types.Int16:
		return itv{-1 << 15, 1<<15 - 1}, true
	case types.Int32, types.UntypedRune:
		return itv{-1 << 31, 1<<31 - 1}, true
	case types.Int, types.Int64, types.UntypedInt:
		return topItv, true
	case types.Uint8:
		return itv{0, 1<<8 - 1}, true
	case types.Uint16:
		return itv{0, 1<<16 - 1}, true
	case types.Uint32:
		return itv{0, 1<<32 - 1}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return itv{0, posInf}, true // posInf stands for 1<<64-1
	}
	return topItv, false
}

// smallArray is the largest array whose elements are tracked one by one.
const smallArray = 8

func isAggArray(a *types.Array) bool { return a.Len() <= smallArray }

func (e *Engine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{condFalse}
		}
		if u.Info()&types.IsString != 0 {
			s := ""
			return VStr{Len: K(0), S: &s}
		}
		if _, ok := intRange(t); ok {
			return VInt{K(0)}
		}
		if isFloat(t) {
			return VTerm{newPolyF(nil)}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return VRef{0}
		}
		return VTop{}
	case *types.Slice:
		return VSlice{}
	case *types.Struct:
		a := VAgg{make([]Val, u.NumFields())}
		for i := range a.F {
			a.F[i] = e.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if isAggArray(u) {
			a := VAgg{make([]Val, u.Len())}
			for i := range a.F {
				a.F[i] = e.zero(u.Elem())
			}
			return a
		}
		return VArr{N: K(u.Len()), Elem: e.summarize(e.zero(u.Elem())), El: u.Elem()}
	case *types.Tuple:
		a := VAgg{make([]Val, u.Len())}
		for i := range a.F {
			a.F[i] = e.zero(u.At(i).Type())
		}
		return a
	}
	return VRef{0}
}

// summarize gives the summary form of a value without symbols.
func (e *Engine) summarize(v Val) Val {
	return summaryOf(v, func(l Lin) itv {
		if c, ok := l.isConst(); ok {
			return itv{c, c}
		}
		return topItv
	})
}

func (e *Engine) valStr(v Val) string {
	switch x := v.(type) {
	case VInt:
		return e.linStr(x.L)
	case VBool:
		switch x.C.K {
		case cTrue:
			return "true"
		case cFalse:
			return "false"
		case cGE:
			return "(" + e.linStr(x.C.L) + ">=0)"
		case cEQ:
			return "(" + e.linStr(x.C.L) + "==0)"
		case cNE:
			return "(" + e.linStr(x.C.L) + "!=0)"
		case cNil:
			return fmt.Sprintf("(r%d==nil)", x.C.R)
		case cNon:
			return fmt.Sprintf("(r%d!=nil)", x.C.R)
		case cAtom, cNotAtom:
			return fmt.Sprintf("(%v %s)", x.C.K == cAtom, x.C.S)
		}
		return "bool?"
	case VStr:
		if x.S != nil {
			return strconv.Quote(*x.S)
		}
		return "str[" + e.linStr(x.Len) + "]"
	case VSlice:
		return fmt.Sprintf("slice{r%d off=%s len=%s cap=%s v%d}", x.Arr, e.linStr(x.Off), e.linStr(x.Len), e.linStr(x.Cap), x.Ver)
	case VRef:
		return fmt.Sprintf("r%d", x.R)
	case VAgg:
		s := "{"
		for i, f := range x.F {
			if i > 0 {
				s += ", "
			}
			s += e.valStr(f)
		}
		return s + "}"
	case VArr:
		s := "arr[" + e.linStr(x.N) + "]{" + e.valStr(x.Elem)
		for _, k := range x.Kn {
			s += fmt.Sprintf(" v%d[%s]=%s", k.ver, e.linStr(k.idx), e.valStr(k.v))
		}
		if x.Gh != nil {
			s += fmt.Sprintf(" ghost[%s]=%s written %d", e.linStr(x.Gh.Idx), e.valStr(x.Gh.V), x.Gh.N)
		}
		return s + "}"
	case VRange:
		return x.R.String()
	case VTerm:
		return "float(" + x.P.key + ")"
	}
	return "?"
}

func (e *Engine) infoStr(r *RefInfo) string {
	s := [...]string{"nil?", "nil", "nonnil"}[r.Nil]
	for _, t := range r.Tg {
		s += fmt.Sprintf(" o%d(%s)%s", t.Obj, e.objName(t.Obj), pathStr(t.Path))
		if t.Path != "" && len(t.Idx.t) > 0 {
			s += "@" + e.linStr(t.Idx)
		}
	}
	for _, d := range r.Dyn {
		s += " dyn:" + d.T.String()
	}
	for _, f := range r.Fns {
		s += " fn:" + f.Fn.Name()
	}
	if r.Unk {
		s += " unk"
	}
	return s
}

func sortTargets(t []Target) {
	sort.Slice(t, func(i, j int) bool {
		if t[i].Obj != t[j].Obj {
			return t[i].Obj < t[j].Obj
		}
		return t[i].Path < t[j].Path
	})
}

func pathStr(p string) string {
	s := ""
	for i := 0; i < len(p); i++ {
		if p[i] == elemByte {
			s += "[]"
		} else {
			s += "." + strconv.Itoa(int(p[i]))
		}
	}
	return s
}
