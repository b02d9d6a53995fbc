package absint

import "golang.org/x/tools/go/ssa"

// Arg returns a component of an argument of the analysed entry function.
func (st *State) Arg(name string, path ...int) (Lin, bool) {
	f := st.frames[0]
	for _, p := range f.fn.Params {
		if p.Name() != name {
			continue
		}
		v := f.regs[p]
		for _, i := range path {
			a, ok := v.(VAgg)
			if !ok || i >= len(a.F) {
				return Lin{}, false
			}
			v = a.F[i]
		}
		x, ok := v.(VInt)
		return x.L, ok
	}
	return Lin{}, false
}

// Entails reports whether l >= 0 in every concrete state.
func (st *State) Entails(l Lin) bool { return st.num.bot || st.num.entails(l) }

// Mul multiplies two expressions.
func (st *State) Mul(a, b Lin) (Lin, bool) { return st.num.mulLin(a, b) }

// Add, Sub, Scale and Plus are affine arithmetic.
func (l Lin) Add(m Lin) (Lin, bool)     { return l.add(m) }
func (l Lin) Sub(m Lin) (Lin, bool)     { return l.sub(m) }
func (l Lin) Scale(k int64) (Lin, bool) { return l.scale(k) }
func (l Lin) Plus(c int64) Lin          { return l.plus(c) }

// ObjName describes an object.
func (e *Engine) ObjName(o ObjID) string { return e.objName(o) }

// Str renders an expression.
func (e *Engine) Str(l Lin) string { return e.linStr(l) }

// Oblige records a check made by a client of the engine.
func (e *Engine) Oblige(st *State, in ssa.Instruction, kind string, ok bool, why func() string) {
	e.oblige(st, in, kind, ok, why)
}

// Impossible reports whether no concrete state is described.
func (st *State) Impossible() bool { return st.num.bot }

// Fn returns the function of an activation.
func (f *Frame) Fn() *ssa.Function { return f.fn }

// Below reports whether a function of the given name is active.
func Below(stack []*Frame, name string) bool {
	for _, f := range stack {
		if f.fn.Name() == name {
			return true
		}
	}
	return false
}
