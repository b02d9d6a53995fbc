package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values that never change during a run of the driver are stable: its
// parameters, results of verifAny at top level, and what is computed from
// them. Floating point expressions over stable values are kept as polynomials
// with rational coefficients (rounding is ignored), and with Congruent set an
// integer operation on equal stable operands yields the same symbol again.

// VTerm is a floating point expression over stable values.
type VTerm struct{ P *fpoly }

type fmono struct {
	at []string // sorted atoms, repeated; "/x" divides
	k  *big.Rat
}

type fpoly struct {
	m   map[string]*fmono
	key string
}

func (m *fmono) id() string { return strings.Join(m.at, "*") }

func newPolyF(ms []*fmono) *fpoly {
	p := &fpoly{m: map[string]*fmono{}}
	for _, m := range ms {
		id := m.id()
		if o := p.m[id]; o != nil {
			o.k = new(big.Rat).Add(o.k, m.k)
		} else {
			p.m[id] = &fmono{m.at, new(big.Rat).Set(m.k)}
		}
	}
	var ks []string
	for id, m := range p.m {
		if m.k.Sign() == 0 {
			delete(p.m, id)
			continue
		}
		ks = append(ks, id)
	}
	sort.Strings(ks)
	for i, id := range ks {
		ks[i] = p.m[id].k.RatString() + "·" + id
	}
	p.key = strings.Join(ks, "+")
	return p
}

func (p *fpoly) list() []*fmono {
	var out []*fmono
	for _, m := range p.m {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id() < out[j].id() })
	return out
}

func fconst(r *big.Rat) *fpoly { return newPolyF([]*fmono{{nil, r}}) }
func fatom(s string) *fpoly    { return newPolyF([]*fmono{{[]string{s}, big.NewRat(1, 1)}}) }
func (p *fpoly) isConst() *big.Rat {
	if len(p.m) == 0 {
		return new(big.Rat)
	}
	if m := p.m[""]; m != nil && len(p.m) == 1 {
		return m.k
	}
	return nil
}

func (p *fpoly) scale(k *big.Rat) *fpoly {
	var ms []*fmono
	for _, m := range p.list() {
		ms = append(ms, &fmono{m.at, new(big.Rat).Mul(m.k, k)})
	}
	return newPolyF(ms)
}

func (p *fpoly) add(q *fpoly) *fpoly { return newPolyF(append(p.list(), q.list()...)) }

func (p *fpoly) mul(q *fpoly) *fpoly {
	var ms []*fmono
	for _, a := range p.list() {
		for _, b := range q.list() {
			ms = append(ms, &fmono{mulAtoms(a.at, b.at), new(big.Rat).Mul(a.k, b.k)})
		}
	}
	return newPolyF(ms)
}

func mulAtoms(a, b []string) []string {
	n := map[string]int{}
	for _, l := range [][]string{a, b} {
		for _, s := range l {
			if s[0] == '/' {
				n[s[1:]]--
			} else {
				n[s]++
			}
		}
	}
	var out []string
	for s, c := range n {
		for ; c > 0; c-- {
			out = append(out, s)
		}
		for ; c < 0; c++ {
			out = append(out, "/"+s)
		}
	}
	sort.Strings(out)
	return out
}

func (p *fpoly) inv() *fpoly {
	if len(p.m) != 1 {
		return nil
	}
	m := p.list()[0]
	return newPolyF([]*fmono{{mulAtoms(nil, invAtoms(m.at)), new(big.Rat).Inv(m.k)}})
}

func invAtoms(a []string) []string {
	var out []string
	for _, s := range a {
		if s[0] == '/' {
			out = append(out, s[1:])
		} else {
			out = append(out, "/"+s)
		}
	}
	return out
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func floatConst(c constant.Value) Val {
	v := constant.ToFloat(c)
	if v.Kind() != constant.Float {
		return VTop{}
	}
	r, ok := new(big.Rat).SetString(v.ExactString())
	if !ok {
		return VTop{}
	}
	return VTerm{fconst(r)}
}

const maxTerm = 24

func floatOp(op token.Token, a, b *fpoly) Val {
	var r *fpoly
	switch op {
	case token.ADD:
		r = a.add(b)
	case token.SUB:
		r = a.add(b.scale(big.NewRat(-1, 1)))
	case token.MUL:
		r = a.mul(b)
	case token.QUO:
		if i := b.inv(); i != nil {
			r = a.mul(i)
		} else if len(b.m) > 0 {
			r = a.mul(fatom("/(" + b.key + ")"))
		}
	}
	if r == nil || len(r.m) > maxTerm || len(r.key) > 2000 {
		return VTop{}
	}
	return VTerm{r}
}

// stableLin reports whether l only mentions stable symbols.
func (e *Engine) stableLin(l Lin) bool {
	for _, t := range l.t {
		if !e.stable[t.s] && !e.constSym[t.s] {
			return false
		}
	}
	return true
}

// linTerm is the floating point value of an integer.
func (e *Engine) linTerm(l Lin) Val {
	if !e.stableLin(l) {
		return VTop{}
	}
	p := fconst(big.NewRat(l.c, 1))
	for _, t := range l.t {
		p = p.add(fatom(fmt.Sprintf("i%d", t.s)).scale(big.NewRat(t.k, 1)))
	}
	return VTerm{p}
}

// termInt converts a term to an integer type, truncating.
func (e *Engine) termInt(st *State, p *fpoly, to types.Type) Val {
	if c := p.isConst(); c != nil {
		q := new(big.Int).Quo(c.Num(), c.Denom())
		if q.IsInt64() {
			r, _ := intRange(to)
			if i := q.Int64(); i >= r.lo && i <= r.hi {
				return VInt{K(i)}
			}
		}
	}
	return VInt{V(e.pureSym("f2i "+to.Underlying().String()+" "+p.key, to))}
}

type pureAt string

// pureSym names the result of a function of stable values.
func (e *Engine) pureSym(key string, t types.Type) Sym {
	r, _ := intRange(t)
	s := e.sym(memoKey{0, pureAt(key), ""}, r)
	e.stable[s] = true
	return s
}

// compareTerms gives the condition a op b. The facts are about the sign of
// the difference, normalised to leading coefficient 1.
func compareTerms(op token.Token, a, b *fpoly) *Cond {
	d := a.add(b.scale(big.NewRat(-1, 1)))
	if c := d.isConst(); c != nil && a.isConst() != nil {
		s := c.Sign()
		ok := false
		switch op {
		case token.EQL:
			ok = s == 0
		case token.NEQ:
			ok = s != 0
		case token.LSS:
			ok = s < 0
		case token.LEQ:
			ok = s <= 0
		case token.GTR:
			ok = s > 0
		case token.GEQ:
			ok = s >= 0
		}
		if ok {
			return condTrue
		}
		return condFalse
	}
	if len(d.m) == 0 {
		// equal up to rounding; NaN compares unequal to itself
		d = fatom("self:" + a.key)
	}
	var l *fmono
	for _, m := range d.list() {
		if len(m.at) > 0 {
			l = m
			break
		}
	}
	if l == nil {
		return condUnk
	}
	neg := l.k.Sign() < 0
	d = d.scale(new(big.Rat).Inv(l.k))
	if neg {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	at := func(s string) *Cond { return &Cond{K: cAtom, S: s + " " + d.key} }
	switch op {
	case token.EQL:
		return at("eq")
	case token.NEQ:
		return at("eq").not()
	case token.LSS:
		return at("lt")
	case token.LEQ:
		return at("le")
	case token.GTR:
		return at("gt")
	case token.GEQ:
		return at("ge")
	}
	return condUnk
}

// learn records that an uninterpreted condition is true or false.
func (s *State) learn(at string, v bool) {
	if old, ok := s.facts[at]; ok {
		if old != v {
			s.num.setBot()
		}
		return
	}
	n := make(map[string]bool, len(s.facts)+1)
	for k, w := range s.facts {
		n[k] = w
	}
	n[at] = v
	s.facts = n
	i := strings.IndexByte(at, ' ')
	if i != 2 {
		return
	}
	op, k := at[:2], at[2:]
	set := func(o string, w bool) {
		if !s.num.bot {
			s.learn(o+k, w)
		}
	}
	is := func(o string, w bool) bool { x, ok := s.facts[o+k]; return ok && x == w }
	if v {
		switch op {
		case "gt":
			set("ge", true)
			set("eq", false)
			set("le", false)
			set("lt", false)
		case "lt":
			set("le", true)
			set("eq", false)
			set("ge", false)
			set("gt", false)
		case "eq":
			set("le", true)
			set("ge", true)
			set("lt", false)
			set("gt", false)
		case "ge":
			set("lt", false)
			if is("gt", false) || is("le", true) {
				set("eq", true)
			}
			if is("eq", false) {
				set("gt", true)
			}
		case "le":
			set("gt", false)
			if is("lt", false) || is("ge", true) {
				set("eq", true)
			}
			if is("eq", false) {
				set("lt", true)
			}
		}
		return
	}
	switch op {
	case "ge":
		set("gt", false)
		set("eq", false)
	case "le":
		set("lt", false)
		set("eq", false)
	case "gt":
		if is("ge", true) {
			set("eq", true)
		}
	case "lt":
		if is("le", true) {
			set("eq", true)
		}
	case "eq":
		if is("ge", true) {
			set("gt", true)
		}
		if is("le", true) {
			set("lt", true)
		}
	}
}

// argKey describes a stable argument.
func (e *Engine) argKey(st *State, v Val) (string, bool) {
	switch x := v.(type) {
	case VInt:
		if e.stableLin(x.L) {
			return x.L.key(), true
		}
		if l := st.num.red(x.L); e.stableLin(l) {
			return l.key(), true
		}
	case VBool:
		switch x.C.K {
		case cTrue, cFalse:
			return fmt.Sprint(x.C.K == cTrue), true
		case cAtom, cNotAtom:
			if b, ok := st.facts[x.C.S]; ok {
				return fmt.Sprint(b == (x.C.K == cAtom)), true
			}
			return fmt.Sprint(x.C.K) + x.C.S, true
		}
	case VTerm:
		return x.P.key, true
	case VRef:
		if x.R == 0 {
			return "nil", true
		}
		i := st.info(x.R)
		if i.Nil == yes {
			return "nil", true
		}
		if e.stableRef[x.R] {
			return fmt.Sprintf("r%d", e.canonRef(st, x.R)), true
		}
		if i.Nil == no && !i.Unk && len(i.Tg) == 1 && len(i.Dyn) == 0 {
			t := i.Tg[0]
			if o := st.heap[t.Obj]; o != nil && !o.Weak && strings.IndexByte(t.Path, elemByte) < 0 {
				return fmt.Sprintf("o%d%s", t.Obj, pathStr(t.Path)), true
			}
		}
	case VAgg:
		s := "{"
		for _, f := range x.F {
			k, ok := e.argKey(st, f)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "}", true
	}
	return "", false
}

// canonRef picks one of the stable references assumed equal to r.
func (e *Engine) canonRef(st *State, r RefID) RefID {
	for q := RefID(1); q < r; q++ {
		if e.stableRef[q] && st.facts[refAtom(q, r)] {
			return q
		}
	}
	return r
}

func refAtom(r, q RefID) string {
	if r > q {
		r, q = q, r
	}
	return fmt.Sprintf("ref r%d r%d", r, q)
}

// pureVal is the result of an uninterpreted function of stable values.
func (e *Engine) pureVal(st *State, key string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return VBool{&Cond{K: cAtom, S: "pure " + key}}
		}
		if _, ok := intRange(t); ok {
			return VInt{V(e.pureSym(key, t))}
		}
		if isFloat(t) {
			return VTerm{fatom("(" + key + ")")}
		}
	case *types.Struct:
		a := VAgg{make([]Val, u.NumFields())}
		for i := range a.F {
			a.F[i] = e.pureVal(st, e.subKey(key, i), u.Field(i).Type())
		}
		return a
	case *types.Tuple:
		a := VAgg{make([]Val, u.Len())}
		for i := range a.F {
			a.F[i] = e.pureVal(st, e.subKey(key, i), u.At(i).Type())
		}
		return a
	case *types.Array:
		if isAggArray(u) {
			a := VAgg{make([]Val, u.Len())}
			for i := range a.F {
				a.F[i] = e.pureVal(st, e.subKey(key, i), u.Elem())
			}
			return a
		}
	case *types.Pointer, *types.Interface:
		r := e.refAt(memoKey{0, pureAt(key), ""})
		e.stableRef[r] = true
		if st.refs[r] == nil {
			st.refs[r] = &RefInfo{Nil: maybe, Unk: true}
		}
		return VRef{r}
	}
	return e.fresh(st, pureAt(key), "", t)
}

// stableVal is an arbitrary value that never changes again.
func (e *Engine) stableVal(st *State, key string, t types.Type) Val {
	return e.pureVal(st, "any "+key, t)
}

// pureOp gives the key under which the operation's result is named, so that
// equal operands give the same symbols.
func (e *Engine) pureOp(st *State, op string, ls ...Lin) string {
	if !e.Congruent {
		return ""
	}
	for i, l := range ls {
		if !e.stableLin(l) {
			l = st.num.red(l)
			if !e.stableLin(l) {
				return ""
			}
			ls[i] = l
		}
	}
	for _, o := range e.pureOps[op] {
		if st.sameOps(op, ls, o.ls) {
			return o.key
		}
	}
	key := op
	for _, l := range ls {
		key += " " + l.key()
	}
	e.pureOps[op] = append(e.pureOps[op], pureOpUse{ls, key})
	return key
}

// sameOps tells whether the operands of two uses of op are equal.
func (s *State) sameOps(op string, x, y []Lin) bool {
	e := s.num.e
	same := true
	for i, l := range x {
		if !e.sameIdx(s, l, y[i]) {
			same = false
			break
		}
	}
	if !same && len(x) == 2 && strings.IndexByte("+*&|^", op[0]) >= 0 && op[1] == ' ' {
		return e.sameIdx(s, x[0], y[1]) && e.sameIdx(s, x[1], y[0])
	}
	return same
}

type pureOpUse struct {
	ls  []Lin
	key string
}

// purely evaluates f so that the symbols it creates are named by key.
func (e *Engine) purely(st *State, key string, f func() Val) Val {
	if key == "" {
		return f()
	}
	old := e.pure
	e.pure = key
	v := f()
	e.pure = old
	if x, ok := v.(VInt); ok && !st.num.bot {
		// the result may have been given a name where it was less known
		for _, tag := range sortedKeys(e.pureSyms[key]) {
			if tag != "" && !strings.HasPrefix(tag, " in ") {
				continue
			}
			if s := e.pureSyms[key][tag]; st.num.mentions(s) {
				if d, ok := V(s).sub(x.L); ok && !e.sameIdx(st, V(s), x.L) {
					st.num.addEQ(d)
				}
			}
		}
	}
	return v
}

// intrinsic models the driver's uninterpreted functions.
func (e *Engine) intrinsic(fn *ssa.Function, x *ssa.Call, st *State, args []Val) bool {
	name := fn.Name()
	t := x.Type()
	switch {
	case name == "verifTouched":
		// whether the last access to an array with a tracked element was to it
		c := condUnk
		switch st.touch {
		case "=":
			c = condTrue
		case "!", "":
			c = condFalse
		}
		st.top().regs[x] = VBool{c}
		return true
	case name == "verifUndecided":
		// the code took a shape that the driver cannot follow
		e.note("undecided: at %s", e.pos(x))
		return true
	case name == "verifStringAt":
		// the byte of a string at an index, if it is the tracked one
		c, ok := e.fresh(st, x, "", types.Typ[types.Uint8]), condFalse
		if s, is := args[0].(VStr); is {
			i, is := args[1].(VInt)
			if is && s.Gh != nil && e.sameIdx(st, s.Gh.Idx, i.L) {
				c, ok = s.Gh.V, condTrue
			}
			if n, known := i.L.isConst(); is && known && s.S != nil && n >= 0 && n < int64(len(*s.S)) {
				c, ok = VInt{K(int64((*s.S)[n]))}, condTrue
			}
		}
		if ok == condFalse {
			e.note("undecided: what the string is made of is not known at %s", e.pos(x))
		}
		st.top().regs[x] = VAgg{[]Val{c, VBool{ok}}}
		return true
	case strings.HasPrefix(name, "verifAny"):
		if st.top().ctx == 0 {
			st.top().regs[x] = e.stableVal(st, fmt.Sprintf("%s %d", name, x.Pos()), t)
		} else {
			st.top().regs[x] = e.fresh(st, x, "", t)
		}
		return true
	case strings.HasPrefix(name, "verifPure"):
		key := name
		ok := true
		for _, a := range args {
			k, o := e.argKey(st, a)
			ok = ok && o
			key += " " + k
		}
		if ok {
			// equal integer arguments may have different names
			for _, o := range e.pureCalls[name] {
				same := true
				for i, a := range args {
					if !e.sameStable(st, a, o.args[i]) {
						same = false
						break
					}
				}
				if same {
					key = o.key
					break
				}
			}
			st.top().regs[x] = e.pureVal(st, key, t)
			e.pureCalls[name] = append(e.pureCalls[name], pureCall{args, key})
		} else {
			st.top().regs[x] = e.fresh(st, x, "", t)
		}
		return true
	}
	return false
}

type pureCall struct {
	args []Val
	key  string
}

func (e *Engine) sameStable(st *State, a, b Val) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && e.stableLin(y.L) && e.sameIdx(st, x.L, y.L)
	case VAgg:
		y, ok := b.(VAgg)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameStable(st, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	k, ok1 := e.argKey(st, a)
	l, ok2 := e.argKey(st, b)
	return ok1 && ok2 && k == l
}

func (e *Engine) subKey(key string, i int) string {
	k := fmt.Sprintf("%s.%d", key, i)
	if l := e.pureSub[key]; i >= len(l) {
		e.pureSub[key] = append(l, k)
	}
	return k
}

// close equates the results of operations and uninterpreted functions whose
// arguments have become equal.
func (s *State) close() {
	e := s.num.e
	if !e.Congruent || len(s.frames) == 0 || e.Paths == nil {
		return
	}
	changed := true
	var same func(k, l string)
	same = func(k, l string) {
		if s.num.bot {
			return
		}
		for _, tag := range sortedKeys(e.pureSyms[k]) {
			x := e.pureSyms[k][tag]
			y, ok := e.pureSyms[l][tag]
			if !ok || x == y || e.sameIdx(s, V(x), V(y)) {
				continue
			}
			if d, ok := V(x).sub(V(y)); ok {
				s.num.addEQ(d)
				changed = true
			}
		}
		if v, ok := s.facts["pure "+k]; ok {
			s.learn("pure "+l, v)
		} else if v, ok := s.facts["pure "+l]; ok {
			s.learn("pure "+k, v)
		}
		for i, c := range e.pureSub[k] {
			if i < len(e.pureSub[l]) {
				same(c, e.pureSub[l][i])
			}
		}
	}
	for n := 0; changed && n < 8 && !s.num.bot; n++ {
		changed = false
		for _, op := range sortedKeys(e.pureOps) {
			us := e.pureOps[op]
			for i, u := range us {
				for _, w := range us[i+1:] {
					if s.sameOps(op, u.ls, w.ls) {
						same(u.key, w.key)
					} else if n == 0 && op[0] == '/' {
						s.closeQuo(u.key, w.key)
					}
				}
			}
		}
		for _, fn := range sortedKeys(e.pureCalls) {
			us := e.pureCalls[fn]
			for i, u := range us {
			nextCall:
				for _, w := range us[i+1:] {
					if u.key == w.key {
						continue
					}
					for k, a := range u.args {
						if !e.sameStable(s, a, w.args[k]) {
							continue nextCall
						}
					}
					same(u.key, w.key)
				}
			}
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// closeQuo equates quotients that cannot differ by one or more.
func (s *State) closeQuo(k, l string) {
	e := s.num.e
	x, ok1 := e.pureSyms[k][""]
	y, ok2 := e.pureSyms[l][""]
	if !ok1 || !ok2 || x == y || !s.num.mentions(x) || !s.num.mentions(y) {
		return
	}
	d, ok := V(x).sub(V(y))
	if !ok || e.sameIdx(s, V(x), V(y)) {
		return
	}
	if s.num.minOf(d) >= 0 && s.num.maxOf(d) <= 0 {
		s.num.addEQ(d)
	}
}
