// Package absint is an abstract interpreter for go/ssa with a relational
// (linear inequality) numeric domain.
package absint

import (
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Sym is an immutable integer unknown.
type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is an affine expression over symbols; t is sorted by symbol.
type Lin struct {
	t []term
	c int64
}

func K(c int64) Lin { return Lin{c: c} }
func V(s Sym) Lin   { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() (int64, bool) { return l.c, len(l.t) == 0 }

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

// limit on coefficient and constant magnitudes: results beyond are refused.
const linMax = int64(1) << 61

func okMag(x int64) bool { return x < linMax && x > -linMax }

// comb returns a*x + b*y.
func comb(a int64, x Lin, b int64, y Lin) (Lin, bool) {
	r := Lin{}
	p, ok1 := mulOv(a, x.c)
	q, ok2 := mulOv(b, y.c)
	if !ok1 || !ok2 {
		return r, false
	}
	c, ok := addOv(p, q)
	if !ok || !okMag(c) {
		return r, false
	}
	r.c = c
	r.t = make([]term, 0, len(x.t)+len(y.t))
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		var s Sym
		var k int64
		switch {
		case j >= len(y.t) || i < len(x.t) && x.t[i].s < y.t[j].s:
			v, ok := mulOv(a, x.t[i].k)
			if !ok {
				return r, false
			}
			s, k = x.t[i].s, v
			i++
		case i >= len(x.t) || y.t[j].s < x.t[i].s:
			v, ok := mulOv(b, y.t[j].k)
			if !ok {
				return r, false
			}
			s, k = y.t[j].s, v
			j++
		default:
			v, ok1 := mulOv(a, x.t[i].k)
			w, ok2 := mulOv(b, y.t[j].k)
			if !ok1 || !ok2 {
				return r, false
			}
			u, ok := addOv(v, w)
			if !ok {
				return r, false
			}
			s, k = x.t[i].s, u
			i++
			j++
		}
		if !okMag(k) {
			return r, false
		}
		if k != 0 {
			r.t = append(r.t, term{s, k})
		}
	}
	return r, true
}

func (l Lin) add(m Lin) (Lin, bool)     { return comb(1, l, 1, m) }
func (l Lin) sub(m Lin) (Lin, bool)     { return comb(1, l, -1, m) }
func (l Lin) scale(k int64) (Lin, bool) { return comb(k, l, 0, Lin{}) }
func (l Lin) plus(c int64) Lin          { r := l; r.c += c; return r }
func (l Lin) neg() Lin                  { r, _ := comb(-1, l, 0, Lin{}); return r }
func (l Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (l Lin) eq(m Lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides by the gcd of coefficients, rounding the constant down
// (valid for integer l >= 0).
func (l Lin) tighten() Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k)
	}
	if g == 1 {
		return l
	}
	r := Lin{c: floorDiv(l.c, g), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.k / g}
	}
	return r
}

// dirKey identifies the linear part.
func (l Lin) dirKey() string {
	b := make([]byte, 0, len(l.t)*8)
	for _, t := range l.t {
		b = strconv.AppendInt(b, int64(t.s), 36)
		b = append(b, ':')
		b = strconv.AppendInt(b, t.k, 36)
		b = append(b, ' ')
	}
	return string(b)
}

func (l Lin) key() string { return l.dirKey() + strconv.FormatInt(l.c, 36) }

// mulLin multiplies when one side is constant.
func sortTerms(t []term) []term {
	sort.Slice(t, func(i, j int) bool { return t[i].s < t[j].s })
	return t
}

// subst replaces s by m.
func (l Lin) subst(s Sym, m Lin) (Lin, bool) {
	k := l.coef(s)
	if k == 0 {
		return l, true
	}
	r := Lin{c: l.c}
	for _, t := range l.t {
		if t.s != s {
			r.t = append(r.t, t)
		}
	}
	return comb(1, r, k, m)
}

// Interval with infinities.
const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type itv struct{ lo, hi int64 }

var topItv = itv{negInf, posInf}

func satAdd(a, b int64) int64 { // a,b may be inf of the same kind only
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	c, ok := addOv(a, b)
	if !ok || c == negInf || c == posInf {
		if a > 0 {
			return posInf
		}
		return negInf
	}
	return c
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	if a == negInf || a == posInf || b == negInf || b == posInf {
		if neg {
			return negInf
		}
		return posInf
	}
	c, ok := mulOv(a, b)
	if !ok {
		if neg {
			return negInf
		}
		return posInf
	}
	return c
}

func (a itv) mulK(k int64) itv {
	if k >= 0 {
		return itv{satMul(a.lo, k), satMul(a.hi, k)}
	}
	return itv{satMul(a.hi, k), satMul(a.lo, k)}
}

func (a itv) add(b itv) itv { return itv{satAdd(a.lo, b.lo), satAdd(a.hi, b.hi)} }

func (a itv) mul(b itv) itv {
	p := []int64{satMul(a.lo, b.lo), satMul(a.lo, b.hi), satMul(a.hi, b.lo), satMul(a.hi, b.hi)}
	r := itv{p[0], p[0]}
	for _, x := range p[1:] {
		r.lo = min(r.lo, x)
		r.hi = max(r.hi, x)
	}
	return r
}

func (a itv) join(b itv) itv { return itv{min(a.lo, b.lo), max(a.hi, b.hi)} }
func (a itv) meet(b itv) itv { return itv{max(a.lo, b.lo), min(a.hi, b.hi)} }
func (a itv) within(b itv) bool {
	return a.lo >= b.lo && a.hi <= b.hi
}
func (a itv) single() bool { return a.lo == a.hi }

func (a itv) String() string {
	f := func(x int64) string {
		switch x {
		case negInf:
			return "-inf"
		case posInf:
			return "+inf"
		}
		return strconv.FormatInt(x, 10)
	}
	return "[" + f(a.lo) + "," + f(a.hi) + "]"
}

func (e *Engine) linStr(l Lin) string {
	var b strings.Builder
	for i, t := range l.t {
		k := t.k
		if i > 0 {
			if k < 0 {
				b.WriteString(" - ")
				k = -k
			} else {
				b.WriteString(" + ")
			}
		} else if k == -1 {
			b.WriteString("-")
			k = 1
		}
		if k != 1 {
			b.WriteString(strconv.FormatInt(k, 10) + "*")
		}
		b.WriteString(e.symName(t.s))
	}
	if len(l.t) == 0 || l.c != 0 {
		if len(l.t) > 0 && l.c > 0 {
			b.WriteString(" + ")
		}
		b.WriteString(strconv.FormatInt(l.c, 10))
	}
	return b.String()
}
