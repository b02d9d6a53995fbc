package absint

import (
	"sort"
)

type factKind int

const (
	factSelect factKind = iota // res = cands[idx - base]
	factProd                   // res = x*y
)

// fact is a deferred non-linear relation about the symbol res.
type fact struct {
	kind  factKind
	res   Sym
	idx   Lin   // select: index expression
	cands []Lin // select: candidates, by index from 0
	x, y  Sym   // product factors
}

// Poly is a conjunction of integer constraints.
type Poly struct {
	e     *Engine
	bot   bool
	eqs   map[Sym]Lin    // solved form, no solved symbol on any right-hand side
	box   map[Sym]itv    // refinement of the symbol's intrinsic range
	cons  map[string]Lin // direction key -> constraint >= 0 (two or more symbols)
	ne    []Lin
	facts []*fact
}

func (e *Engine) newPoly() *Poly {
	return &Poly{e: e, eqs: map[Sym]Lin{}, box: map[Sym]itv{}, cons: map[string]Lin{}}
}

func (p *Poly) clone() *Poly {
	q := &Poly{e: p.e, bot: p.bot, eqs: make(map[Sym]Lin, len(p.eqs)), box: make(map[Sym]itv, len(p.box)),
		cons: make(map[string]Lin, len(p.cons))}
	for k, v := range p.eqs {
		q.eqs[k] = v
	}
	for k, v := range p.box {
		q.box[k] = v
	}
	for k, v := range p.cons {
		q.cons[k] = v
	}
	q.ne = append([]Lin(nil), p.ne...)
	q.facts = append([]*fact(nil), p.facts...)
	return q
}

func (p *Poly) setBot() {
	p.bot = true
}

func (p *Poly) itvSym(s Sym) itv {
	r := p.e.syms[s].rng
	if b, ok := p.box[s]; ok {
		r = r.meet(b)
	}
	return r
}

// red substitutes solved symbols.
func (p *Poly) red(l Lin) Lin {
	for i := 0; i < len(l.t); i++ {
		if m, ok := p.eqs[l.t[i].s]; ok {
			n, ok := l.subst(l.t[i].s, m)
			if ok {
				l = n
				i = -1
			}
		}
	}
	return l
}

func (p *Poly) itvRaw(l Lin) itv {
	r := itv{l.c, l.c}
	for _, t := range l.t {
		r = r.add(p.itvSym(t.s).mulK(t.k))
	}
	return r
}

// itvOf returns a cheap interval for l.
func (p *Poly) itvOf(l Lin) itv {
	l = p.red(l)
	r := p.itvRaw(l)
	if len(l.t) > 1 {
		if c, ok := p.cons[l.dirKey()]; ok { // dir >= -c.c
			r.lo = max(r.lo, satAdd(l.c, -c.c))
		}
		n := l.neg()
		if c, ok := p.cons[n.dirKey()]; ok {
			r.hi = min(r.hi, satAdd(l.c, c.c))
		}
	}
	return r
}

func (p *Poly) setBox(s Sym, b itv) {
	old := p.itvSym(s)
	nw := old.meet(b)
	if nw == old {
		return
	}
	if nw.lo > nw.hi {
		p.setBot()
		return
	}
	p.box[s] = nw
	if nw.lo == nw.hi {
		p.assignConst(s, nw.lo)
		return
	}
	p.pokeNE(s)
	p.pokeFacts(s)
}

func (p *Poly) pokeNE(s Sym) {
	for i := 0; i < len(p.ne); i++ {
		l := p.ne[i]
		if l.coef(s) == 0 {
			continue
		}
		r := p.itvOf(l)
		if r.lo > 0 || r.hi < 0 {
			p.ne = append(p.ne[:i:i], p.ne[i+1:]...)
			i--
			continue
		}
		if r.lo == 0 || r.hi == 0 {
			p.ne = append(p.ne[:i:i], p.ne[i+1:]...)
			i--
			if r.lo == 0 && r.hi == 0 {
				p.setBot()
				return
			}
			if r.lo == 0 {
				p.addGE(l.plus(-1))
			} else {
				p.addGE(l.neg().plus(-1))
			}
			if p.bot {
				return
			}
			i = -1
		}
	}
}

func (p *Poly) pokeFacts(s Sym) {
	for i := 0; i < len(p.facts); i++ {
		f := p.facts[i]
		if f.kind == factSelect {
			if p.red(f.idx).coef(s) == 0 {
				continue
			}
			p.applySelect(f)
			if p.bot {
				return
			}
		}
	}
}

// applySelect refines res from the range of idx.
func (p *Poly) applySelect(f *fact) {
	r := p.itvOf(f.idx)
	lo, hi := max(r.lo, 0), min(r.hi, int64(len(f.cands)-1))
	if lo > hi {
		return
	}
	if lo == hi {
		p.dropFact(f)
		d, ok := V(f.res).sub(f.cands[lo])
		if ok {
			p.addEQ(d)
		}
		return
	}
	if hi-lo > 300 {
		return
	}
	allc := true
	b := itv{posInf, negInf}
	for i := lo; i <= hi; i++ {
		ci := p.itvOf(f.cands[i])
		b = b.join(ci)
		if !f.cands[i].eq(f.cands[lo]) {
			allc = false
		}
	}
	if allc {
		p.dropFact(f)
		d, ok := V(f.res).sub(f.cands[lo])
		if ok {
			p.addEQ(d)
		}
		return
	}
	if !p.itvOf(V(f.res)).within(b) {
		p.addItv(V(f.res), b)
	}
}

func (p *Poly) dropFact(f *fact) {
	for i, g := range p.facts {
		if g == f {
			p.facts = append(p.facts[:i:i], p.facts[i+1:]...)
			return
		}
	}
}

func (p *Poly) addItv(l Lin, b itv) {
	if b.lo != negInf {
		if m, ok := l.sub(K(b.lo)); ok {
			p.addGE(m)
		}
	}
	if b.hi != posInf && !p.bot {
		if m, ok := K(b.hi).sub(l); ok {
			p.addGE(m)
		}
	}
}

func (p *Poly) assignConst(s Sym, c int64) {
	d, _ := V(s).sub(K(c))
	p.addEQraw(d)
}

// addGE adds l >= 0.
func (p *Poly) addGE(l Lin) {
	if p.bot {
		return
	}
	l = p.red(l).tighten()
	if len(l.t) == 0 {
		if l.c < 0 {
			p.setBot()
		}
		return
	}
	if len(l.t) == 1 {
		t := l.t[0] // k*s + c >= 0, k = +-1 after tighten
		if t.k > 0 {
			p.setBox(t.s, itv{-l.c, posInf})
		} else {
			p.setBox(t.s, itv{negInf, l.c})
		}
		return
	}
	r := p.itvRaw(l)
	if r.lo >= 0 {
		return
	}
	if r.hi < 0 {
		p.setBot()
		return
	}
	k := l.dirKey()
	if old, ok := p.cons[k]; ok && old.c <= l.c {
		return
	}
	// Opposite direction present: detect equality or contradiction.
	n := l.neg()
	if opp, ok := p.cons[n.dirKey()]; ok {
		s := opp.c + l.c // opp: -L + opp.c >= 0 ; l: L + l.c >= 0
		if s < 0 {
			p.setBot()
			return
		}
		if s == 0 {
			delete(p.cons, n.dirKey())
			delete(p.cons, k)
			p.addEQ(l)
			return
		}
	}
	p.cons[k] = l
	// bound propagation
	for _, t := range l.t {
		// t.k*s >= -(rest)  where rest max
		rest := itv{l.c, l.c}
		for _, u := range l.t {
			if u.s != t.s {
				rest = rest.add(p.itvSym(u.s).mulK(u.k))
			}
		}
		if rest.hi == posInf {
			continue
		}
		cur := p.itvSym(t.s)
		if t.k > 0 { // s >= ceil(-rest.hi / k)
			lo := -floorDiv(rest.hi, t.k)
			if lo > cur.lo {
				p.setBox(t.s, itv{lo, posInf})
			}
		} else { // s <= floor(rest.hi / -k)
			hi := floorDiv(rest.hi, -t.k)
			if hi < cur.hi {
				p.setBox(t.s, itv{negInf, hi})
			}
		}
		if p.bot {
			return
		}
		if _, ok := p.eqs[t.s]; ok {
			return
		}
	}
	// disequalities that this constraint may decide
	for i := 0; i < len(p.ne); i++ {
		dk := p.ne[i].dirKey()
		if dk == k || dk == n.dirKey() {
			ll := p.ne[i]
			rr := p.itvOf(ll)
			if rr.lo == 0 || rr.hi == 0 {
				p.ne = append(p.ne[:i:i], p.ne[i+1:]...)
				if rr.lo == 0 {
					p.addGE(ll.plus(-1))
				} else {
					p.addGE(ll.neg().plus(-1))
				}
				return
			}
		}
	}
}

// addEQ adds l == 0.
func (p *Poly) addEQ(l Lin) {
	if p.bot {
		return
	}
	p.addEQraw(p.red(l))
}

func (p *Poly) addEQraw(l Lin) {
	if p.bot {
		return
	}
	if len(l.t) == 0 {
		if l.c != 0 {
			p.setBot()
		}
		return
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if l.c%g != 0 {
			p.setBot()
			return
		}
		m := Lin{c: l.c / g}
		for _, t := range l.t {
			m.t = append(m.t, term{t.s, t.k / g})
		}
		l = m
	}
	if r := p.itvRaw(l); r.lo > 0 || r.hi < 0 {
		p.setBot()
		return
	}
	best := -1
	for i, t := range l.t {
		if t.k == 1 || t.k == -1 {
			best = i // newest symbol
		}
	}
	if best < 0 {
		p.addGEnoEq(l)
		p.addGEnoEq(l.neg())
		return
	}
	p.solve(l, l.t[best].s)
}

func (p *Poly) addGEnoEq(l Lin) {
	if p.bot {
		return
	}
	l = l.tighten()
	if len(l.t) <= 1 {
		p.addGE(l)
		return
	}
	k := l.dirKey()
	if old, ok := p.cons[k]; ok && old.c <= l.c {
		return
	}
	p.cons[k] = l
}

// solve uses l == 0 (coefficient of s is +-1) to eliminate s.
func (p *Poly) solve(l Lin, s Sym) {
	k := l.coef(s)
	var rhs Lin
	m := Lin{c: l.c}
	for _, t := range l.t {
		if t.s != s {
			m.t = append(m.t, t)
		}
	}
	if k == 1 {
		rhs = m.neg()
	} else {
		rhs = m
	}
	rng := p.itvSym(s)
	delete(p.box, s)
	p.substAll(s, rhs)
	if p.bot {
		return
	}
	if rng.lo != negInf {
		if d, ok := rhs.sub(K(rng.lo)); ok {
			p.addGE(d)
		}
	}
	if rng.hi != posInf && !p.bot {
		if d, ok := K(rng.hi).sub(rhs); ok {
			p.addGE(d)
		}
	}
}

// substAll replaces s by rhs in every component.
func (p *Poly) substAll(s Sym, rhs Lin) {
	for q, r := range p.eqs {
		if r.coef(s) != 0 {
			n, ok := r.subst(s, rhs)
			if !ok {
				delete(p.eqs, q)
				continue
			}
			p.eqs[q] = n
		}
	}
	p.eqs[s] = rhs
	var redo []Lin
	for k, c := range p.cons {
		if c.coef(s) != 0 {
			delete(p.cons, k)
			if n, ok := c.subst(s, rhs); ok {
				redo = append(redo, n)
			}
		}
	}
	var nes []Lin
	var newNE []Lin
	for _, l := range p.ne {
		if l.coef(s) != 0 {
			if n, ok := l.subst(s, rhs); ok {
				newNE = append(newNE, n)
			}
		} else {
			nes = append(nes, l)
		}
	}
	p.ne = nes
	var sel, prods []*fact
	for i := 0; i < len(p.facts); i++ {
		f := p.facts[i]
		switch f.kind {
		case factSelect:
			if f.idx.coef(s) != 0 {
				sel = append(sel, f)
			}
		case factProd:
			if f.x == s || f.y == s {
				prods = append(prods, f)
				p.facts = append(p.facts[:i:i], p.facts[i+1:]...)
				i--
			}
		}
	}
	sort.Slice(redo, func(i, j int) bool { return redo[i].key() < redo[j].key() })
	for _, c := range redo {
		p.addGE(c)
		if p.bot {
			return
		}
	}
	for _, l := range newNE {
		p.addNE(l)
		if p.bot {
			return
		}
	}
	for _, f := range sel {
		nf := *f
		if n, ok := f.idx.subst(s, rhs); ok {
			nf.idx = n
		}
		p.dropFact(f)
		p.facts = append(p.facts, &nf)
		p.applySelect(&nf)
		if p.bot {
			return
		}
	}
	for _, f := range prods {
		x, y := V(f.x), V(f.y)
		if f.x == s {
			x = rhs
		}
		if f.y == s {
			y = rhs
		}
		if m, ok := p.mulLin(x, y); ok {
			if d, ok := V(f.res).sub(m); ok {
				p.addEQ(d)
			}
		}
		if p.bot {
			return
		}
	}
}

// addNE adds l != 0.
func (p *Poly) addNE(l Lin) {
	if p.bot {
		return
	}
	l = p.red(l)
	if len(l.t) == 0 {
		if l.c == 0 {
			p.setBot()
		}
		return
	}
	r := p.itvOf(l)
	if r.lo > 0 || r.hi < 0 {
		return
	}
	if r.lo < 0 && r.hi > 0 && len(l.t) > 1 {
		if p.entails(l) {
			r.lo = 0
		} else if p.entails(l.neg()) {
			r.hi = 0
		}
	}
	if r.lo == 0 && r.hi == 0 {
		p.setBot()
		return
	}
	if r.lo == 0 {
		p.addGE(l.plus(-1))
		return
	}
	if r.hi == 0 {
		p.addGE(l.neg().plus(-1))
		return
	}
	for _, q := range p.ne {
		if q.eq(l) {
			return
		}
	}
	if len(p.ne) < 80 {
		p.ne = append(p.ne, l)
	}
}

// cone gathers constraints connected to the symbols of l.
func (p *Poly) cone(l Lin, limit int) []Lin {
	if len(p.cons) == 0 {
		return nil
	}
	bySym := map[Sym][]string{}
	for k, c := range p.cons {
		for _, t := range c.t {
			bySym[t.s] = append(bySym[t.s], k)
		}
	}
	seenS := map[Sym]bool{}
	seenC := map[string]bool{}
	var out []Lin
	var q []Sym
	for _, t := range l.t {
		q = append(q, t.s)
		seenS[t.s] = true
	}
	for depth := 0; depth < 4 && len(q) > 0; depth++ {
		var nq []Sym
		var ks []string
		for _, s := range q {
			for _, k := range bySym[s] {
				if !seenC[k] {
					seenC[k] = true
					ks = append(ks, k)
				}
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if len(out) >= limit {
				return out
			}
			c := p.cons[k]
			out = append(out, c)
			for _, t := range c.t {
				if !seenS[t.s] {
					seenS[t.s] = true
					nq = append(nq, t.s)
				}
			}
		}
		q = nq
	}
	return out
}

// minOf returns a sound integer lower bound of l (negInf if unknown).
func (p *Poly) minOf(l Lin) int64 {
	l = p.red(l)
	r := p.itvOf(l)
	if len(l.t) == 0 {
		return l.c
	}
	if len(p.cons) == 0 {
		return r.lo
	}
	rows := p.cone(l, 48)
	if len(rows) == 0 {
		return r.lo
	}
	p.e.stats.lp++
	res := lpMin(l, rows, p.itvSym)
	if res.infeasible {
		p.setBot()
		return posInf
	}
	if res.unbounded || res.gaveUp {
		return r.lo
	}
	return max(r.lo, res.min)
}

func (p *Poly) maxOf(l Lin) int64 {
	m := p.minOf(l.neg())
	if m == negInf {
		return posInf
	}
	if m == posInf {
		return negInf
	}
	return -m
}

// entails reports whether l >= 0 holds.
func (p *Poly) entails(l Lin) bool {
	if p.bot {
		return true
	}
	l = p.red(l)
	r := p.itvOf(l)
	if r.lo >= 0 {
		return true
	}
	if r.hi < 0 {
		return false
	}
	if len(l.t) == 0 {
		return false
	}
	if p.minOf(l) >= 0 {
		return true
	}
	return p.entailsProd(l)
}

// entailsProd strengthens the constraint set with products of constraints
// relevant to the product symbols in l (degree two).
func (p *Poly) entailsProd(l Lin) bool {
	var prods []*fact
	for _, t := range l.t {
		for _, f := range p.facts {
			if f.kind == factProd && f.res == t.s {
				prods = append(prods, f)
			}
		}
	}
	if len(prods) == 0 {
		return false
	}
	q := p.clone()
	// candidate factors
	syms := map[Sym]bool{}
	for _, f := range prods {
		syms[f.x] = true
		syms[f.y] = true
	}
	var list []Lin
	for s := range syms {
		b := q.itvSym(s)
		if b.lo != negInf {
			list = append(list, V(s).plus(-b.lo))
		}
		if b.hi != posInf {
			if d, ok := K(b.hi).sub(V(s)); ok {
				list = append(list, d)
			}
		}
	}
	factor := map[Sym]bool{}
	for _, f := range q.facts {
		if f.kind == factProd {
			factor[f.x], factor[f.y] = true, true
		}
	}
	for _, c := range q.cons {
		in := 0
		for _, t := range c.t {
			if syms[t.s] {
				in++
			}
			if !factor[t.s] {
				in = -10
			}
		}
		if in > 0 && len(c.t) <= 4 {
			list = append(list, c)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].key() < list[j].key() })
	if len(list) > 40 {
		list = list[:40]
	}
	for i := range list {
		for j := i; j < len(list); j++ {
			if m, ok := q.mulLinPure(list[i], list[j]); ok {
				q.addGE(m)
				if q.bot {
					return true
				}
			}
		}
	}
	l = q.red(l)
	rows := q.cone(l, 160)
	res := lpMin(l, rows, q.itvSym)
	if res.infeasible {
		return true
	}
	return !res.unbounded && !res.gaveUp && res.min >= 0
}

// mulLinPure multiplies two affine expressions using only already known
// product symbols; it fails if a new product symbol would be required.
func (p *Poly) mulLinPure(a, b Lin) (Lin, bool) {
	return p.mulGen(a, b, false)
}

// mulLin multiplies two affine expressions, introducing product symbols.
func (p *Poly) mulLin(a, b Lin) (Lin, bool) {
	a, b = p.red(a), p.red(b)
	r, ok := p.mulGen(a, b, true)
	if ok {
		p.mccormick(r, a, b)
	}
	return r, ok
}

func (p *Poly) mulGen(a, b Lin, create bool) (Lin, bool) {
	if len(a.t) == 0 {
		return b.scale(a.c)
	}
	if len(b.t) == 0 {
		return a.scale(b.c)
	}
	if len(a.t)*len(b.t) > 9 {
		return Lin{}, false
	}
	r := K(0)
	var ok bool
	for _, x := range a.t {
		for _, y := range b.t {
			s, found := p.prodSym(x.s, y.s, create)
			if !found {
				return Lin{}, false
			}
			k, o := mulOv(x.k, y.k)
			if !o {
				return Lin{}, false
			}
			if r, ok = comb(1, r, k, V(s)); !ok {
				return Lin{}, false
			}
		}
	}
	ac := Lin{t: a.t}
	bc := Lin{t: b.t}
	if r, ok = comb(1, r, b.c, ac); !ok {
		return Lin{}, false
	}
	if r, ok = comb(1, r, a.c, bc); !ok {
		return Lin{}, false
	}
	k, o := mulOv(a.c, b.c)
	if !o {
		return Lin{}, false
	}
	return comb(1, r, 1, K(k))
}

func (p *Poly) prodSym(x, y Sym, create bool) (Sym, bool) {
	if x > y {
		x, y = y, x
	}
	for _, f := range p.facts {
		if f.kind == factProd && f.x == x && f.y == y {
			return f.res, true
		}
	}
	if !create {
		return 0, false
	}
	s := p.e.prodOfSyms(x, y)
	if _, solved := p.eqs[s]; solved {
		// the product is already pinned by an equality
		return s, true
	}
	p.facts = append(p.facts, &fact{kind: factProd, res: s, x: x, y: y})
	b := p.itvSym(x).mul(p.itvSym(y))
	if x == y {
		b.lo = max(b.lo, 0)
	}
	p.setBox(s, b)
	return s, true
}

// mccormick bounds a product by the bounds of its factors.
func (p *Poly) mccormick(r, x, y Lin) {
	const lim = 1 << 20
	if p.bot || len(x.t) == 0 || len(y.t) == 0 || x.eq(y) {
		return
	}
	rng := func(l Lin) itv {
		r := p.itvOf(l)
		if len(l.t) > 1 {
			r = r.meet(itv{p.minOf(l), p.maxOf(l)})
		}
		return r
	}
	a, b := rng(x), rng(y)
	if p.bot || a.lo >= a.hi || b.lo >= b.hi || a.lo < -lim || a.hi > lim || b.lo < -lim || b.hi > lim {
		return
	}
	for _, c := range [4]struct {
		m    int64
		k, l int64
	}{{1, a.lo, b.lo}, {1, a.hi, b.hi}, {-1, a.lo, b.hi}, {-1, a.hi, b.lo}} {
		// m * (x-k) * (y-l) >= 0
		l, ok := comb(c.m, r, -c.m*c.k, y)
		if ok {
			l, ok = comb(1, l, -c.m*c.l, x)
		}
		if ok {
			p.addGE(l.plus(c.m * c.k * c.l))
		}
	}
}

// linMinus returns the expression with symbol renaming applied.
func (l Lin) rename(m map[Sym]Sym) Lin {
	hit := false
	for _, t := range l.t {
		if _, ok := m[t.s]; ok {
			hit = true
		}
	}
	if !hit {
		return l
	}
	r := Lin{c: l.c, t: make([]term, len(l.t))}
	for i, t := range l.t {
		if n, ok := m[t.s]; ok {
			t.s = n
		}
		r.t[i] = t
	}
	sortTerms(r.t)
	return r
}

// renameClosure extends m to the product symbols whose factors it renames.
func (p *Poly) renameClosure(m map[Sym]Sym) map[Sym]Sym {
	if len(p.e.prodOf) == 0 {
		return m
	}
	seen := map[Sym]bool{}
	for s := range p.box {
		seen[s] = true
	}
	for s, l := range p.eqs {
		seen[s] = true
		for _, t := range l.t {
			seen[t.s] = true
		}
	}
	for _, l := range p.cons {
		for _, t := range l.t {
			seen[t.s] = true
		}
	}
	for _, f := range p.facts {
		seen[f.res] = true
	}
	var list []Sym
	for s := range seen {
		if _, ok := p.e.prodOf[s]; ok {
			list = append(list, s)
		}
	}
	if len(list) == 0 {
		return m
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	m2 := make(map[Sym]Sym, len(m)+2)
	for k, v := range m {
		m2[k] = v
	}
	for _, s := range list { // creation order: factors come first
		f := p.e.prodOf[s]
		if _, done := m2[s]; done {
			continue
		}
		x, y := f[0], f[1]
		hit := false
		if n, ok := m2[x]; ok {
			x, hit = n, true
		}
		if n, ok := m2[y]; ok {
			y, hit = n, true
		}
		if hit {
			m2[s] = p.e.prodOfSyms(x, y)
		}
	}
	return m2
}

// rename replaces symbols; the caller has closed m under products.
func (p *Poly) rename(m map[Sym]Sym) {
	if len(m) == 0 {
		return
	}
	eqs := make(map[Sym]Lin, len(p.eqs))
	for k, v := range p.eqs {
		if n, ok := m[k]; ok {
			k = n
		}
		eqs[k] = v.rename(m)
	}
	p.eqs = eqs
	box := make(map[Sym]itv, len(p.box))
	for k, v := range p.box {
		if n, ok := m[k]; ok {
			k = n
		}
		box[k] = v
	}
	p.box = box
	cons := make(map[string]Lin, len(p.cons))
	for _, v := range p.cons {
		n := v.rename(m)
		cons[n.dirKey()] = n
	}
	p.cons = cons
	for i := range p.ne {
		p.ne[i] = p.ne[i].rename(m)
	}
	for i, f := range p.facts {
		nf := *f
		rs := func(s *Sym) {
			if n, ok := m[*s]; ok {
				*s = n
			}
		}
		rs(&nf.res)
		nf.idx = nf.idx.rename(m)
		if f.kind == factProd {
			rs(&nf.x)
			rs(&nf.y)
			if nf.x > nf.y {
				nf.x, nf.y = nf.y, nf.x
			}
		}
		if len(f.cands) > 0 {
			nf.cands = make([]Lin, len(f.cands))
			for j, c := range f.cands {
				nf.cands[j] = c.rename(m)
			}
		}
		p.facts[i] = &nf
	}
}

// project removes every symbol not in live.
func (p *Poly) project(live map[Sym]bool) {
	if p.bot {
		return
	}
	// Products of live symbols carry their relations.
	copied := false
	for _, f := range p.facts {
		if f.kind == factProd && live[f.x] && live[f.y] && !live[f.res] {
			if !copied {
				l2 := make(map[Sym]bool, len(live)+4)
				for s, ok := range live {
					l2[s] = ok
				}
				live, copied = l2, true
			}
			live[f.res] = true
		}
	}
	// Facts: keep when the result and its inputs are live.
	var fs []*fact
	for _, f := range p.facts {
		keep := live[f.res]
		if _, solved := p.eqs[f.res]; solved {
			// relation kept only through the equality
		}
		for _, t := range f.idx.t {
			keep = keep && live[t.s]
		}
		for _, c := range f.cands {
			for _, t := range c.t {
				keep = keep && live[t.s]
			}
		}
		if f.kind == factProd {
			keep = keep && live[f.x] && live[f.y]
		}
		if keep {
			fs = append(fs, f)
		}
	}
	p.facts = fs
	// Solved dead symbols vanish.
	for s := range p.eqs {
		if !live[s] {
			delete(p.eqs, s)
		}
	}
	// Dead symbols on right-hand sides: re-solve.
	for {
		var pick Sym = -1
		var from Sym
		keys := p.sortedEqs()
		for _, s := range keys {
			for _, t := range p.eqs[s].t {
				if !live[t.s] {
					if t.k == 1 || t.k == -1 {
						pick, from = t.s, s
						break
					}
				}
			}
			if pick >= 0 {
				break
			}
		}
		if pick < 0 {
			break
		}
		rhs := p.eqs[from]
		delete(p.eqs, from)
		// from - rhs = 0, solve for pick
		l, ok := V(from).sub(rhs)
		if !ok {
			continue
		}
		p.solve(l, pick)
		if p.bot {
			return
		}
		delete(p.eqs, pick)
	}
	// Equalities with dead symbols of larger coefficients: as inequalities.
	for _, s := range p.sortedEqs() {
		dead := false
		for _, t := range p.eqs[s].t {
			if !live[t.s] {
				dead = true
			}
		}
		if dead {
			l, ok := V(s).sub(p.eqs[s])
			delete(p.eqs, s)
			if ok {
				p.addGEnoEq(l)
				p.addGEnoEq(l.neg())
			}
		}
	}
	// Fourier-Motzkin on the rest.
	occ := map[Sym]int{}
	for _, c := range p.cons {
		for _, t := range c.t {
			if !live[t.s] {
				occ[t.s]++
			}
		}
	}
	var dead []Sym
	for s := range occ {
		dead = append(dead, s)
	}
	sort.Slice(dead, func(i, j int) bool {
		if occ[dead[i]] != occ[dead[j]] {
			return occ[dead[i]] < occ[dead[j]]
		}
		return dead[i] < dead[j]
	})
	for _, s := range dead {
		p.fm(s)
		if p.bot {
			return
		}
	}
	for s := range p.box {
		if !live[s] {
			delete(p.box, s)
		}
	}
	var ne []Lin
	for _, l := range p.ne {
		ok := true
		for _, t := range l.t {
			if !live[t.s] {
				ok = false
			}
		}
		if ok {
			ne = append(ne, l)
		}
	}
	p.ne = ne
}

func (p *Poly) sortedEqs() []Sym {
	keys := make([]Sym, 0, len(p.eqs))
	for s := range p.eqs {
		keys = append(keys, s)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
}

func (p *Poly) sortedCons() []Lin {
	ks := make([]string, 0, len(p.cons))
	for k := range p.cons {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Lin, len(ks))
	for i, k := range ks {
		out[i] = p.cons[k]
	}
	return out
}

func (p *Poly) fm(s Sym) {
	var pos, neg []Lin
	var ks []string
	for k, c := range p.cons {
		if c.coef(s) != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := p.cons[k]
		delete(p.cons, k)
		if c.coef(s) > 0 {
			pos = append(pos, c)
		} else {
			neg = append(neg, c)
		}
	}
	b := p.itvSym(s)
	if b.lo != negInf && okMag(b.lo) {
		pos = append(pos, V(s).plus(-b.lo))
	}
	if b.hi != posInf && okMag(b.hi) {
		d, ok := K(b.hi).sub(V(s))
		if ok {
			neg = append(neg, d)
		}
	}
	if len(pos)*len(neg) > 64 {
		// too many: keep only the combinations with the unary bounds
		if len(pos) > 8 {
			pos = pos[len(pos)-8:]
		}
		if len(neg) > 8 {
			neg = neg[len(neg)-8:]
		}
	}
	for _, x := range pos {
		for _, y := range neg {
			a, c := x.coef(s), -y.coef(s)
			g := gcd(a, c)
			if r, ok := comb(c/g, x, a/g, y); ok {
				if len(r.t) <= 7 {
					p.addGE(r)
					if p.bot {
						return
					}
				}
			}
		}
	}
}
