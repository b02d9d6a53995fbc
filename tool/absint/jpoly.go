package absint

import (
	"math/big"
	"sort"
)

// joinPoly returns a conjunction implied by both a and b, over the symbols in
// live. It destroys its arguments.
func joinPoly(a, b *Poly, live map[Sym]bool, tmpl []Lin) *Poly {
	a.e.stats.joins++
	if a.bot {
		b.project(live)
		return b
	}
	if b.bot {
		a.project(live)
		return a
	}
	a.project(live)
	if !a.bot {
		b.project(live)
	}
	if a.bot {
		b.project(live)
		return b
	}
	if b.bot {
		return a
	}
	if a.alike(b) {
		return a
	}
	e := a.e
	j := e.newPoly()
	// Equalities.
	for _, l := range commonEqs(a, b) {
		j.addEQ(l)
	}
	// Boxes.
	syms := map[Sym]bool{}
	collect := func(p *Poly) {
		for s := range p.box {
			syms[s] = true
		}
		for s, r := range p.eqs {
			syms[s] = true
			for _, t := range r.t {
				syms[t.s] = true
			}
		}
	}
	collect(a)
	collect(b)
	list := make([]Sym, 0, len(syms))
	for s := range syms {
		list = append(list, s)
	}
	sort.Slice(list, func(x, y int) bool { return list[x] < list[y] })
	for _, s := range list {
		if _, solved := j.eqs[s]; solved {
			continue
		}
		if a.bot || b.bot {
			break
		}
		l := V(s)
		ra, rb := a.itvOf(l), b.itvOf(l)
		_, sa := a.eqs[s]
		_, sb := b.eqs[s]
		if ra.lo < rb.lo && sa {
			ra.lo = max(ra.lo, a.minOf(l))
		}
		if rb.lo < ra.lo && sb {
			rb.lo = max(rb.lo, b.minOf(l))
		}
		if ra.hi > rb.hi && sa {
			ra.hi = min(ra.hi, a.maxOf(l))
		}
		if rb.hi > ra.hi && sb {
			rb.hi = min(rb.hi, b.maxOf(l))
		}
		if a.bot || b.bot {
			break
		}
		j.addItv(l, ra.join(rb))
	}
	if a.bot {
		return b
	}
	if b.bot {
		return a
	}
	// Inequalities.
	seen := map[string]bool{}
	cand := func(l Lin, own, other *Poly) bool {
		if len(l.t) < 2 || len(l.t) > 6 {
			return true
		}
		k := l.dirKey()
		if seen[k] {
			return true
		}
		seen[k] = true
		l0 := Lin{t: l.t}
		mo := other.minOf(l0)
		if other.bot {
			return false
		}
		if mo == negInf || !okMag(mo) {
			return true
		}
		m := -l.c // own minimum
		if own2 := own.itvOf(l0).lo; own2 > m {
			m = own2
		}
		if mo < m {
			m = mo
		}
		j.addGE(l0.plus(-m))
		return true
	}
	run := func(own, other *Poly) bool {
		// A new name for a value takes part in the value's inequalities.
		sub := map[Sym]Lin{}    // by the symbol replaced: an expression that is zero
		sub2 := map[Sym][]Lin{} // the same with two symbols: used where it shortens
		for _, s := range own.sortedEqs() {
			r := own.eqs[s]
			if len(r.t) == 0 || len(r.t) > 2 {
				continue
			}
			l, ok := V(s).sub(r)
			if !ok {
				continue
			}
			if len(r.t) == 2 {
				for _, t := range r.t {
					if t.k == 1 || t.k == -1 {
						sub2[t.s] = append(sub2[t.s], l)
					}
				}
				continue
			}
			if r.t[0].k != 1 && r.t[0].k != -1 {
				continue
			}
			if q := j.red(l); len(q.t) == 0 && q.c == 0 {
				continue
			}
			if _, dup := sub[r.t[0].s]; !dup {
				sub[r.t[0].s] = l
			}
		}
		for _, l := range own.sortedCons() {
			if !cand(l, own, other) {
				return false
			}
			all, n := l, 0
			for _, t := range l.t {
				for _, z := range sub2[t.s] {
					m := -t.k * z.coef(t.s)
					if one, ok := comb(1, l, m, z); ok && len(one.t) <= len(l.t) {
						if !cand(one, own, other) {
							return false
						}
					}
				}
				z, ok := sub[t.s]
				if !ok {
					continue
				}
				m := -t.k * z.coef(t.s)
				one, ok1 := comb(1, l, m, z)
				if a2, ok2 := comb(1, all, m, z); ok1 && ok2 {
					all = a2
					n++
					if !cand(one, own, other) {
						return false
					}
				}
			}
			if n > 1 && !cand(all, own, other) {
				return false
			}
		}
		for _, s := range own.sortedEqs() {
			l, ok := V(s).sub(own.eqs[s])
			if !ok {
				continue
			}
			if r := j.red(l); len(r.t) == 0 && r.c == 0 {
				continue
			}
			if !cand(l, own, other) || !cand(l.neg(), own, other) {
				return false
			}
			if len(own.eqs[s].t) < 2 {
				continue
			}
			// the same with other names
			all, n := l, 0
			for _, t := range l.t {
				z, ok := sub[t.s]
				if !ok {
					continue
				}
				if a2, ok := comb(1, all, -t.k*z.coef(t.s), z); ok {
					all = a2
					n++
				}
			}
			if n > 0 && (!cand(all, own, other) || !cand(all.neg(), own, other)) {
				return false
			}
		}
		return true
	}
	if !run(a, b) {
		return a // b turned out infeasible
	}
	if !run(b, a) {
		return b
	}
	// A counter that is known in both states, against bounds that differ.
	pts, diff := []Sym{}, []Sym{}
	for _, s := range list {
		if _, solved := j.eqs[s]; solved {
			continue
		}
		ra, rb := a.itvOf(V(s)), b.itvOf(V(s))
		if ra == rb {
			continue
		}
		diff = append(diff, s)
		if ra.lo == ra.hi && rb.lo == rb.hi && (ra.lo-rb.lo == 1 || rb.lo-ra.lo == 1) {
			pts = append(pts, s)
		}
	}
	if len(pts) <= 2 && len(diff) <= 8 {
		for _, s := range pts {
			for _, t := range diff {
				if s == t {
					continue
				}
				for k := int64(-1); k <= 1; k += 2 {
					l, ok := V(s).sub(V(t))
					if !ok {
						continue
					}
					if k > 0 {
						l = l.neg()
					}
					if seen[l.dirKey()] {
						continue
					}
					m := min(a.itvOf(l).lo, b.itvOf(l).lo)
					if m == negInf || !okMag(m) || j.itvRaw(l).lo >= m {
						continue
					}
					seen[l.dirKey()] = true
					j.addGE(l.plus(-m))
				}
			}
		}
	}
	// A counter that is known in both states, against inequalities that its
	// step makes tight in both.
	if len(pts) == 1 {
		s := pts[0]
		va, vb := a.itvOf(V(s)).lo, b.itvOf(V(s)).lo
		var more []Lin
		for _, own := range [2]*Poly{a, b} {
			other := b
			if own == b {
				other = a
			}
			for _, c := range own.sortedCons() {
				if len(c.t) != 2 || c.coef(s) != 0 {
					continue
				}
				l0 := Lin{t: c.t}
				mo := other.itvOf(l0).lo
				if mo == negInf || !okMag(mo) || !okMag(c.c) {
					continue
				}
				ma, mb := -c.c, mo
				if own == b {
					ma, mb = mb, ma
				}
				if ma-mb != 1 && mb-ma != 1 {
					continue
				}
				k := (mb - ma) * (vb - va)
				l, ok := comb(1, l0, -k, V(s))
				if !ok || seen[l.dirKey()] {
					continue
				}
				seen[l.dirKey()] = true
				more = append(more, l.plus(-ma+k*va))
			}
		}
		for _, l := range more {
			j.addGE(l)
		}
	}
	for _, l := range tmpl {
		if seen[l.dirKey()] {
			continue
		}
		seen[l.dirKey()] = true
		ma := a.minOf(l)
		if a.bot {
			return b
		}
		mb := b.minOf(l)
		if b.bot {
			return a
		}
		m := min(ma, mb)
		if m == negInf || !okMag(m) || j.itvRaw(l).lo >= m {
			continue
		}
		if c := j.red(l.plus(-m)); len(c.t) < 2 || !j.entails(c) {
			j.addGE(c)
		}
	}
	if tmpl != nil {
		j.prune()
	}
	// Disequalities.
	for _, p := range [2]*Poly{a, b} {
		q := b
		if p == b {
			q = a
		}
		for _, l := range p.ne {
			if q.excludes(l) {
				j.addNE(l)
			}
		}
	}
	for _, s := range list {
		l := V(s)
		if j.itvOf(l).lo < 0 && j.itvOf(l).hi > 0 && a.excludes(l) && b.excludes(l) {
			j.addNE(l)
		}
	}
	// Facts.
	for _, f := range a.facts {
		for _, g := range b.facts {
			if f.kind == g.kind && f.res == g.res && (f == g || f.same(g)) {
				j.facts = append(j.facts, f)
				if f.kind == factSelect {
					j.applySelect(f)
				}
				break
			}
		}
	}
	return j
}

func (f *fact) same(g *fact) bool {
	if f.kind == factProd {
		return f.x == g.x && f.y == g.y
	}
	if !f.idx.eq(g.idx) || len(f.cands) != len(g.cands) {
		return false
	}
	for i := range f.cands {
		if !f.cands[i].eq(g.cands[i]) {
			return false
		}
	}
	return true
}

// excludes reports whether l != 0 is known.
func (p *Poly) excludes(l Lin) bool {
	l = p.red(l)
	r := p.itvOf(l)
	if r.lo > 0 || r.hi < 0 {
		return true
	}
	n := l.neg()
	for _, q := range p.ne {
		if q.eq(l) || q.eq(n) {
			return true
		}
	}
	if len(l.t) > 1 {
		return p.entails(l.plus(-1)) || p.entails(n.plus(-1))
	}
	return false
}

// commonEqs returns a basis of the affine equalities valid in both.
func commonEqs(a, b *Poly) []Lin {
	var out []Lin
	type row struct {
		l, r Lin // equality of a, and its residue in b
	}
	var rows []row
	addRow := func(l Lin) {
		r := b.red(l)
		if len(r.t) == 0 && r.c == 0 {
			out = append(out, l)
			return
		}
		rows = append(rows, row{l, r})
	}
	for _, s := range a.sortedEqs() {
		if l, ok := V(s).sub(a.eqs[s]); ok {
			addRow(l)
		}
	}
	if len(rows) < 2 {
		return out
	}
	// Null space of the residues: columns are symbols and the constant.
	cols := map[Sym]int{}
	var syms []Sym
	for _, r := range rows {
		for _, t := range r.r.t {
			if _, ok := cols[t.s]; !ok {
				cols[t.s] = 0
				syms = append(syms, t.s)
			}
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	for i, s := range syms {
		cols[s] = i
	}
	n, m := len(rows), len(syms)+1
	mat := make([][]*big.Rat, n) // [residue | identity]
	for i := range mat {
		mat[i] = make([]*big.Rat, m+n)
		for k := range mat[i] {
			mat[i][k] = new(big.Rat)
		}
		for _, t := range rows[i].r.t {
			mat[i][cols[t.s]].SetInt64(t.k)
		}
		mat[i][m-1].SetInt64(rows[i].r.c)
		mat[i][m+i].SetInt64(1)
	}
	rank := 0
	tmp := new(big.Rat)
	for c := 0; c < m && rank < n; c++ {
		p := -1
		for i := rank; i < n; i++ {
			if mat[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		mat[p], mat[rank] = mat[rank], mat[p]
		for i := rank + 1; i < n; i++ {
			if mat[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Quo(mat[i][c], mat[rank][c])
			for k := c; k < m+n; k++ {
				if mat[rank][k].Sign() != 0 {
					mat[i][k].Sub(mat[i][k], tmp.Mul(f, mat[rank][k]))
				}
			}
		}
		rank++
	}
	for i := rank; i < n; i++ {
		// integer combination
		den := big.NewInt(1)
		for k := 0; k < n; k++ {
			d := mat[i][m+k].Denom()
			g := new(big.Int).GCD(nil, nil, den, d)
			den.Mul(den, new(big.Int).Quo(d, g))
		}
		l, ok := K(0), true
		for k := 0; k < n && ok; k++ {
			v := new(big.Int).Mul(mat[i][m+k].Num(), new(big.Int).Quo(den, mat[i][m+k].Denom()))
			if v.Sign() == 0 {
				continue
			}
			if !v.IsInt64() {
				ok = false
				break
			}
			l, ok = comb(1, l, v.Int64(), rows[k].l)
		}
		if ok && len(l.t) > 0 {
			out = append(out, l)
		}
	}
	return out
}

// leq reports whether p implies every constraint of q.
func (p *Poly) leq(q *Poly) bool {
	if p.bot {
		return true
	}
	if q.bot {
		return false
	}
	for _, s := range q.sortedEqs() {
		l, ok := V(s).sub(q.eqs[s])
		if !ok {
			continue
		}
		r := p.red(l)
		if len(r.t) == 0 && r.c == 0 {
			continue
		}
		if !p.entails(r) || !p.entails(r.neg()) {
			return false
		}
	}
	for s, b := range q.box {
		r := p.itvOf(V(s))
		if r.within(b) {
			continue
		}
		if b.lo > r.lo && b.lo != negInf && !p.entails(V(s).plus(-b.lo)) {
			return false
		}
		if b.hi < r.hi && b.hi != posInf {
			if d, ok := K(b.hi).sub(V(s)); ok && !p.entails(d) {
				return false
			}
		}
	}
	for _, c := range q.cons {
		if !p.entails(c) {
			return false
		}
	}
	for _, l := range q.ne {
		if !p.excludes(l) {
			return false
		}
	}
	return true
}

var thresholds = []int64{-1 << 62, -1 << 40, -1 << 31, -65536, -32768, -256, -128, -1, 0, 1, 2, 3, 7, 15, 31, 32, 63, 64, 127, 255, 256, 32767, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1 << 62}

// widenPoly drops from j what is not stable with respect to the previous
// invariant h. fresh symbols were introduced in this step and are exempt.
// With hard only constraints h states explicitly survive, so that repeated
// widening ends.
func widenPoly(h, j *Poly, fresh map[Sym]bool, strict, hard bool, th []int64) *Poly {
	w := j.clone()
	exempt := func(l Lin) bool {
		for _, t := range l.t {
			if fresh[t.s] {
				return true
			}
		}
		return false
	}
	for k, c := range j.cons {
		if exempt(c) {
			continue
		}
		old, ok := h.cons[k]
		if ok && old.c == c.c {
			continue
		}
		if !ok && !strict {
			continue
		}
		if !ok && !hard && h.entails(c) && !h.entails(c.plus(-1)) {
			continue // tight in h as well, only not explicit there
		}
		delete(w.cons, k)
		// try a threshold
		if ok && !strict {
			for _, t := range th {
				if t >= c.c && t > old.c {
					w.cons[k] = Lin{t: c.t, c: t}
					break
				}
			}
		}
	}
	for s, b := range j.box {
		if fresh[s] {
			continue
		}
		ho := h.itvOf(V(s))
		n := b
		if b.lo < ho.lo {
			n.lo = negInf
			for i := len(th) - 1; i >= 0; i-- {
				if th[i] <= b.lo {
					n.lo = th[i]
					break
				}
			}
		}
		if b.hi > ho.hi {
			n.hi = posInf
			for i := 0; i < len(th); i++ {
				if th[i] >= b.hi {
					n.hi = th[i]
					break
				}
			}
		}
		if n == topItv {
			delete(w.box, s)
		} else if n != b {
			w.box[s] = n
		}
	}
	return w
}

// prune drops constraints implied by the others.
func (p *Poly) prune() {
	if p.bot {
		return
	}
	cs := p.sortedCons()
	w := func(l Lin) int64 {
		n := int64(0)
		for _, t := range l.t {
			k := t.k
			if k < 0 {
				k = -k
			}
			n += k + 1
		}
		return n
	}
	sort.SliceStable(cs, func(i, j int) bool {
		a, b := w(cs[i]), w(cs[j])
		if a != b {
			return a > b
		}
		return cs[i].c > cs[j].c
	})
	for _, c := range cs {
		k := c.dirKey()
		old, ok := p.cons[k]
		if !ok {
			continue
		}
		delete(p.cons, k)
		if !p.entails(old) {
			p.cons[k] = old
		}
	}
}

// alike reports whether p and q consist of the same constraints.
func (p *Poly) alike(q *Poly) bool {
	if len(p.eqs) != len(q.eqs) || len(p.cons) != len(q.cons) || len(p.ne) != len(q.ne) || len(p.facts) != len(q.facts) {
		return false
	}
	for s, l := range p.eqs {
		if m, ok := q.eqs[s]; !ok || !l.eq(m) {
			return false
		}
	}
	for k, l := range p.cons {
		if m, ok := q.cons[k]; !ok || !l.eq(m) {
			return false
		}
	}
	for _, l := range p.ne {
		found := false
		for _, m := range q.ne {
			found = found || l.eq(m)
		}
		if !found {
			return false
		}
	}
	for _, f := range p.facts {
		found := false
		for _, g := range q.facts {
			found = found || f == g || f.kind == g.kind && f.res == g.res && f.same(g)
		}
		if !found {
			return false
		}
	}
	for s := range p.box {
		if p.itvSym(s) != q.itvSym(s) {
			return false
		}
	}
	for s := range q.box {
		if p.itvSym(s) != q.itvSym(s) {
			return false
		}
	}
	return true
}
