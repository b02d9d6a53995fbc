package absint

import (
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return true
	}
	return false
}

func (e *Engine) typeItv(t types.Type) itv {
	r, _ := intRange(t)
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return itv{-1 << 62, 1 << 62} // conservatively inside the real range
	case types.Uint, types.Uint64, types.Uintptr:
		return itv{0, 1 << 62}
	}
	return r
}

// fits reports whether l is certainly representable in t.
func (e *Engine) fits(st *State, l Lin, t types.Type) bool {
	r := e.typeItv(t)
	g := st.num.itvOf(l)
	if g.within(r) {
		return true
	}
	if g.lo == negInf && g.hi == posInf {
		return false
	}
	b := t.Underlying().(*types.Basic)
	if b.Kind() == types.Int32 && !e.Congruent {
		return false // fixed point arithmetic wraps; do not spend effort
	}
	lo, hi := g.lo, g.hi
	if lo < r.lo {
		lo = st.num.minOf(l)
	}
	if lo < r.lo {
		return false
	}
	if hi > r.hi {
		hi = st.num.maxOf(l)
	}
	return hi <= r.hi
}

func (e *Engine) norm(st *State, in ssa.Instruction, l Lin, ok bool, t types.Type) Val {
	if ok && e.fits(st, l, t) {
		return VInt{l}
	}
	return VInt{e.freshInt(st, in, "", t)}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (e *Engine) freshIn(st *State, in ssa.Instruction, t types.Type, r itv) Lin {
	l := e.freshInt(st, in, "", t)
	if !st.num.bot {
		st.num.addItv(l, r)
	}
	return l
}

// arith evaluates an integer operation.
func (e *Engine) arith(st *State, in ssa.Instruction, op token.Token, x, y Lin, t types.Type) Val {
	p := st.num
	switch op {
	case token.ADD:
		l, ok := x.add(y)
		return e.norm(st, in, l, ok, t)
	case token.SUB:
		l, ok := x.sub(y)
		v := e.norm(st, in, l, ok, t).(VInt)
		if ok && !v.L.eq(l) && p.excludes(l) {
			p.addNE(v.L) // a wrapped difference of unequal operands is not zero
		}
		return v
	case token.MUL:
		rx, ry := p.itvOf(x), p.itvOf(y)
		rx0, ry0 := p.red(x), p.red(y)
		if len(rx0.t) > 0 && len(ry0.t) > 0 && len(rx0.t) <= 2 && len(ry0.t) <= 2 {
			for _, l := range []Lin{rx0, ry0} {
				for _, q := range l.t {
					b := p.itvSym(q.s)
					if n := p.tight(V(q.s), b); n != b && !p.bot {
						p.addItv(V(q.s), n)
					}
				}
			}
			rx, ry = p.tight(x, p.itvOf(x)), p.tight(y, p.itvOf(y))
		}
		m := rx.mul(ry)
		if !m.within(e.typeItv(t)) {
			return VInt{e.freshInt(st, in, "", t)}
		}
		rxl, ryl := p.red(x), p.red(y)
		if n, k := len(rxl.t), len(ryl.t); n > 2 && k > 0 || k > 2 && n > 0 {
			return VInt{e.freshIn(st, in, t, m)}
		}
		if len(rxl.t) > 0 && len(ryl.t) > 0 && m.hi-m.lo > 1<<48 {
			return VInt{e.freshIn(st, in, t, m)} // not an index computation
		}
		if l, ok := p.mulLin(x, y); ok && e.fits(st, l, t) {
			return VInt{l}
		}
		r := e.freshIn(st, in, t, m)
		p.mccormick(r, p.red(x), p.red(y))
		return VInt{r}
	case token.QUO:
		if c, ok := p.red(y).isConst(); ok && c != 0 {
			return VInt{e.quo(st, in, x, c, t)}
		}
		rx, ry := p.itvOf(x), p.itvOf(y)
		if rx.lo >= 0 && ry.lo >= 0 {
			q := e.freshIn(st, in, t, itv{0, rx.hi})
			if d, ok := x.sub(q); ok {
				p.addGE(d)
			}
			return VInt{q}
		}
		m := rx.hi
		if rx.lo == negInf || -rx.lo > m {
			m = -rx.lo
			if rx.lo == negInf {
				m = posInf
			}
		}
		if m == posInf {
			return VInt{e.freshInt(st, in, "", t)}
		}
		return VInt{e.freshIn(st, in, t, itv{-m, m})}
	case token.REM:
		rx, ry := p.itvOf(x), p.itvOf(y)
		if c, ok := p.red(y).isConst(); ok && c != 0 {
			if c < 0 {
				c = -c
			}
			if rx.lo >= 0 && rx.hi < c {
				return VInt{x}
			}
			if rx.lo >= 0 && okMag(c) {
				q := e.freshItv(st, in, "q", itv{0, posInf})
				r := e.freshIn(st, in, t, itv{0, c - 1})
				if cq, ok := q.scale(c); ok {
					if s, ok := cq.add(r); ok {
						if d, ok := x.sub(s); ok {
							p.addEQ(d)
						}
					}
				}
				e.shareFloor(st, x, c, q)
				return VInt{r}
			}
			if rx.hi <= 0 {
				return VInt{e.freshIn(st, in, t, itv{-(c - 1), 0})}
			}
			return VInt{e.freshIn(st, in, t, itv{-(c - 1), c - 1})}
		}
		if rx.lo >= 0 && ry.lo > 0 {
			r := e.freshIn(st, in, t, itv{0, posInf})
			if d, ok := y.sub(r); ok {
				p.addGE(d.plus(-1))
			}
			if d, ok := x.sub(r); ok {
				p.addGE(d)
			}
			return VInt{r}
		}
		return VInt{e.freshInt(st, in, "", t)}
	case token.AND:
		return VInt{e.and(st, in, x, y, t)}
	case token.OR, token.XOR:
		rx, ry := p.itvOf(x), p.itvOf(y)
		if c, ok := p.red(y).isConst(); ok && c == 0 {
			return VInt{x}
		}
		if c, ok := p.red(x).isConst(); ok && c == 0 {
			return VInt{y}
		}
		if r, ok := e.disjoint(st, x, y, rx, ry); ok && e.sums {
			return VInt{r}
		}
		if rx.lo >= 0 && ry.lo >= 0 && rx.hi < 1<<62 && ry.hi < 1<<62 {
			m := int64(1)<<bits.Len64(uint64(rx.hi|ry.hi)) - 1
			r := e.freshIn(st, in, t, itv{0, m})
			if op == token.OR {
				if d, ok := r.sub(x); ok {
					p.addGE(d)
				}
				if d, ok := r.sub(y); ok {
					p.addGE(d)
				}
			}
			return VInt{r}
		}
		return VInt{e.freshInt(st, in, "", t)}
	case token.AND_NOT:
		if c, ok := p.red(y).isConst(); ok && c >= 0 && (c+1)&c == 0 && c < 1<<40 {
			if r, ok := e.clearLow(st, in, x, c); ok {
				return VInt{r}
			}
			return VInt{e.freshInt(st, in, "", t)}
		}
		rx := p.itvOf(x)
		if rx.lo >= 0 {
			r := e.freshIn(st, in, t, itv{0, rx.hi})
			if d, ok := x.sub(r); ok {
				p.addGE(d)
			}
			return VInt{r}
		}
		return VInt{e.freshInt(st, in, "", t)}
	case token.SHL:
		if c, ok := p.red(y).isConst(); ok && c >= 0 && c < 62 {
			l, ok := x.scale(1 << uint(c))
			return e.norm(st, in, l, ok, t)
		}
		rx, ry := p.itvOf(x), p.itvOf(y)
		if ry.lo >= 0 && ry.hi < 62 {
			m := rx.mul(itv{1 << uint(ry.lo), 1 << uint(ry.hi)})
			if m.within(e.typeItv(t)) {
				r := e.freshIn(st, in, t, m)
				if rx.lo >= 0 {
					if d, ok := r.sub(x); ok {
						p.addGE(d)
					}
				}
				return VInt{r}
			}
		}
		return VInt{e.freshInt(st, in, "", t)}
	case token.SHR:
		if c, ok := p.red(y).isConst(); ok && c >= 0 {
			if c == 0 {
				return VInt{x}
			}
			if c < 40 {
				return VInt{e.floorDivLin(st, in, x, 1<<uint(c), t)}
			}
		}
		rx, ry := p.itvOf(x), p.itvOf(y)
		if rx.lo >= 0 {
			r := e.freshIn(st, in, t, itv{0, rx.hi})
			if d, ok := x.sub(r); ok {
				p.addGE(d)
			}
			if ry.lo > 0 && ry.lo < 60 && rx.hi != posInf {
				p.addItv(r, itv{0, rx.hi >> uint(ry.lo)})
			}
			return VInt{r}
		}
		r := rx
		if r.hi < 0 {
			r.hi = -1
		}
		return VInt{e.freshIn(st, in, t, r)}
	}
	return VInt{e.freshInt(st, in, "", t)}
}

// floorDivLin is floor(x / c) for c > 0.
func (e *Engine) floorDivLin(st *State, in ssa.Instruction, x Lin, c int64, t types.Type) Lin {
	p := st.num
	rx := p.itvOf(x)
	// exact division of a multiple
	rl := p.red(x)
	exact := rl.c%c == 0
	for _, u := range rl.t {
		if u.k%c != 0 {
			exact = false
		}
	}
	if exact {
		r := Lin{c: rl.c / c}
		for _, u := range rl.t {
			r.t = append(r.t, term{u.s, u.k / c})
		}
		return r
	}
	b := topItv
	if rx.lo != negInf {
		b.lo = floorDiv(rx.lo, c)
	}
	if rx.hi != posInf {
		b.hi = floorDiv(rx.hi, c)
	}
	// bounds relative to the dividend's own symbols, rounded
	var rel []Lin
	if len(rl.t) >= 2 && len(rl.t) <= 4 {
		for _, u := range rl.t {
			y := V(u.s)
			cy, ok := y.scale(c)
			if !ok {
				continue
			}
			d, ok := x.sub(cy)
			if !ok {
				continue
			}
			if m := p.maxOf(d); m != posInf && okMag(m) {
				rel = append(rel, y.plus(floorDiv(m, c)))
			} else {
				rel = append(rel, Lin{c: posInf})
			}
			if m := p.minOf(d); m != negInf && okMag(m) {
				rel = append(rel, y.plus(floorDiv(m, c)))
			} else {
				rel = append(rel, Lin{c: posInf})
			}
		}
	}
	// and to the dividend
	if n := len(rl.t); n >= 1 && n <= 3 && c > 1 && rx.lo >= -1 {
		if m := p.minOf(x); m > 0 && okMag(m) {
			rel = append(rel, x.plus(floorDiv(-m*(c-1), c)), Lin{c: posInf})
		}
	}
	if p.bot {
		return K(0)
	}
	q := e.freshIn(st, in, t, b)
	if cq, ok := q.scale(c); ok {
		if d, ok := x.sub(cq); ok { // 0 <= x - c q <= c-1
			p.addGE(d)
			if d2, ok := K(c - 1).sub(d); ok {
				p.addGE(d2)
			}
		}
	}
	for i, y := range rel {
		if len(y.t) == 0 {
			continue
		}
		d, ok := y.sub(q)
		if i%2 == 1 {
			d, ok = q.sub(y)
		}
		if ok {
			p.addGE(d)
		}
	}
	e.shareFloor(st, x, c, q)
	return q
}

// shareFloor records that q is the floor of x / c, whatever operation it
// comes from.
func (e *Engine) shareFloor(st *State, x Lin, c int64, q Lin) {
	if !e.Congruent || st.num.bot {
		return
	}
	old := e.pure
	e.pure = ""
	defer func() { e.pure = old }()
	key := e.pureOp(st, "floor", x, K(c))
	if key == "" {
		return
	}
	f := V(e.sym(memoKey{0, pureAt(key), ""}, topItv))
	if d, ok := q.sub(f); ok {
		st.num.addEQ(d)
	}
}

// quo is Go's truncated division by a non-zero constant.
func (e *Engine) quo(st *State, in ssa.Instruction, x Lin, c int64, t types.Type) Lin {
	p := st.num
	rx := p.itvOf(x)
	if c == 1 {
		return x
	}
	if c > 0 && rx.lo < 0 && rx.lo > -1<<40 {
		rx.lo = p.minOf(x)
	}
	if c > 0 && rx.lo >= 0 {
		q := e.floorDivLin(st, in, x, c, t)
		if len(p.red(x).t) > 1 && rx.hi != posInf {
			if m := p.maxOf(x); m < rx.hi && !p.bot {
				p.addItv(q, itv{0, m / c})
			}
		}
		return q
	}
	abs := c
	if abs < 0 {
		abs = -abs
	}
	b := topItv
	if rx.lo != negInf && rx.hi != posInf && c != negInf {
		m := max(rx.hi, -rx.lo) / abs
		b = itv{-m, m}
	}
	q := e.freshIn(st, in, t, b)
	if c > 0 && okMag(c) {
		if cq, ok := q.scale(c); ok {
			if d, ok := x.sub(cq); ok { // |x - c q| <= c-1
				p.addGE(d.plus(c - 1))
				if d2, ok := K(c - 1).sub(d); ok {
					p.addGE(d2)
				}
			}
		}
	}
	return q
}

func (e *Engine) and(st *State, in ssa.Instruction, x, y Lin, t types.Type) Lin {
	p := st.num
	rx, ry := p.itvOf(x), p.itvOf(y)
	if c, ok := p.red(x).isConst(); ok {
		if _, yc := p.red(y).isConst(); !yc {
			x, y, rx, ry = y, x, ry, rx
			_ = c
		}
	}
	if c, ok := p.red(y).isConst(); ok && c >= 0 {
		if c == 0 {
			return K(0)
		}
		if k, kc := p.red(x).isConst(); kc {
			return K(k & c)
		}
		if (c+1)&c == 0 && c < 1<<40 { // x mod (c+1)
			if rx.lo >= 0 && rx.hi <= c {
				return x
			}
			r := e.freshIn(st, in, t, itv{0, c})
			q := e.freshItv(st, in, "q", topItv)
			if cq, ok := q.scale(c + 1); ok {
				if s, ok := cq.add(r); ok {
					if d, ok := x.sub(s); ok {
						p.addEQ(d)
					}
				}
			}
			e.shareFloor(st, x, c+1, q)
			return r
		}
		hi := c
		if rx.lo >= 0 && rx.hi < hi {
			hi = rx.hi
		}
		r := e.freshIn(st, in, t, itv{rx.prefix() & c, hi})
		if rx.lo >= 0 {
			if d, ok := x.sub(r); ok {
				p.addGE(d)
			}
		}
		return r
	}
	if c, ok := p.red(y).isConst(); ok && c < 0 && c > -(1<<40) && -c&(-c-1) == 0 {
		if r, ok := e.clearLow(st, in, x, -c-1); ok {
			return r
		}
	}
	if rx.lo >= 0 || ry.lo >= 0 {
		hi := int64(posInf)
		if rx.lo >= 0 {
			hi = min(hi, rx.hi)
		}
		if ry.lo >= 0 {
			hi = min(hi, ry.hi)
		}
		if neg, ok := x.add(y); ok {
			// x & -x is the greatest power of two that divides x
			if c, ok := p.red(neg).isConst(); ok && c == 0 && (rx.lo > 0 || ry.lo > 0) {
				if rx.lo <= 0 {
					x, rx = y, ry
				}
				if c, ok := p.red(x).isConst(); ok {
					return K(c & -c)
				}
				r := e.freshIn(st, in, t, itv{1, hi})
				k := int64(0)
				if rx.noPower() {
					k = -1
				}
				if d, ok := x.sub(r); ok {
					p.addGE(d.plus(k))
				}
				return r
			}
		}
		lo := rx.prefix() & ry.prefix()
		return e.freshIn(st, in, t, itv{lo, hi})
	}
	return e.freshInt(st, in, "", t)
}

// disjoint is the sum of x and y if they have no bit in common.
func (e *Engine) disjoint(st *State, x, y Lin, rx, ry itv) (Lin, bool) {
	p := st.num
	if rx.lo < 0 || ry.lo < 0 {
		return Lin{}, false
	}
	for k := 0; k < 2; k++ {
		if ry.hi < 1<<40 {
			// y is less than m and x a multiple of it
			m := int64(1) << bits.Len64(uint64(ry.hi))
			r := p.red(x)
			ok := r.c%m == 0
			for _, t := range r.t {
				ok = ok && t.k%m == 0
			}
			if ok {
				return x.add(y)
			}
		}
		x, y, rx, ry = y, x, ry, rx
	}
	return Lin{}, false
}

// clearLow is x - x mod (c+1), for c+1 a power of two.
func (e *Engine) clearLow(st *State, in ssa.Instruction, x Lin, c int64) (Lin, bool) {
	p := st.num
	if c == 0 {
		return x, true
	}
	q := e.freshItv(st, in, "q", topItv)
	r, ok := q.scale(c + 1)
	if !ok {
		return Lin{}, false
	}
	d, ok := x.sub(r)
	if !ok {
		return Lin{}, false
	}
	p.addGE(d)
	if d2, ok := K(c).sub(d); ok {
		p.addGE(d2)
	}
	e.shareFloor(st, x, c+1, q)
	return r, true
}

// convertInt converts between integer types.
func (e *Engine) convertInt(st *State, in ssa.Instruction, x Lin, from, to types.Type) Val {
	rf, _ := intRange(from)
	rt, _ := intRange(to)
	if rf.within(rt) && !(rt.hi == posInf && rf.hi == posInf && isSigned(to) && !isSigned(from)) {
		return VInt{x}
	}
	if e.fits(st, x, to) {
		return VInt{x}
	}
	if wide(to) {
		g := st.num.itvOf(x)
		if isSigned(to) || g.lo >= 0 {
			if g.lo >= rt.lo && (g.hi != posInf || isSigned(from)) && g.lo != negInf {
				return VInt{x}
			}
			if isSigned(from) && isSigned(to) {
				return VInt{x}
			}
		}
	}
	r := e.freshInt(st, in, "", to)
	g := st.num.itvOf(x)
	b := e.typeItv(to)
	if !isSigned(to) && g.lo >= 0 && b.hi < 1<<40 {
		// truncation of a non-negative value does not increase it
		if d, ok := x.sub(r); ok {
			st.num.addGE(d)
		}
	}
	return VInt{r}
}

// tight bounds l with the inequalities when its interval is unbounded.
func (p *Poly) tight(l Lin, r itv) itv {
	if r.lo == negInf || r.lo <= -1<<40 {
		r.lo = max(r.lo, p.minOf(l))
	}
	if r.hi == posInf || r.hi >= 1<<40 {
		r.hi = min(r.hi, p.maxOf(l))
	}
	return r
}
