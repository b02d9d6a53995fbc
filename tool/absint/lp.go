package absint

import (
	"math/big"
	"math/bits"
)

// Exact linear programming over the rationals, with integer (Edmonds)
// pivoting: int64 arithmetic with overflow detection, falling back to
// big.Int.
//
// lpMin minimises obj subject to rows >= 0 and bnd. It returns
// (infeasible, bounded, floor-of-min rounded up for integers).

type lpResult struct {
	infeasible bool
	unbounded  bool
	gaveUp     bool
	min        int64 // ceil of the rational minimum (a sound integer lower bound)
}

func lpMin(obj Lin, rows []Lin, bnd func(Sym) itv) lpResult {
	// Column mapping.
	type col struct {
		s    Sym
		sign int64
		off  int64
	}
	var cols []col
	first := map[Sym]int{}
	second := map[Sym]int{}
	var syms []Sym
	addSym := func(s Sym) {
		if _, ok := first[s]; ok {
			return
		}
		b := bnd(s)
		first[s] = len(cols)
		syms = append(syms, s)
		switch {
		case b.lo != negInf && okMag(b.lo):
			cols = append(cols, col{s, 1, b.lo})
		case b.hi != posInf && okMag(b.hi):
			cols = append(cols, col{s, -1, b.hi})
		default:
			cols = append(cols, col{s, 1, 0})
			second[s] = len(cols)
			cols = append(cols, col{s, -1, 0})
		}
	}
	for _, t := range obj.t {
		addSym(t.s)
	}
	for _, r := range rows {
		for _, t := range r.t {
			addSym(t.s)
		}
	}
	n := len(cols)
	conv := func(l Lin) ([]int64, bool) {
		out := make([]int64, n+1)
		c := l.c
		for _, t := range l.t {
			i := first[t.s]
			out[i] += t.k * cols[i].sign
			p, ok := mulOv(t.k, cols[i].off)
			if !ok {
				return nil, false
			}
			c, ok = addOv(c, p)
			if !ok {
				return nil, false
			}
			if j, ok := second[t.s]; ok {
				out[j] -= t.k
			}
		}
		out[n] = c
		return out, true
	}
	var tab [][]int64
	for _, r := range rows {
		v, ok := conv(r)
		if !ok {
			continue // dropping a constraint is sound
		}
		tab = append(tab, v)
	}
	for _, s := range syms {
		b := bnd(s)
		i := first[s]
		if b.lo != negInf && b.hi != posInf && okMag(b.lo) && okMag(b.hi) && b.hi < 1<<50 && b.lo > -(1<<50) {
			v := make([]int64, n+1)
			v[i] = -1
			v[n] = b.hi - b.lo
			tab = append(tab, v)
		}
	}
	ov, ok := conv(obj)
	if !ok {
		return lpResult{gaveUp: true}
	}
	if r, ok := solveInt(n, tab, ov); ok {
		return r
	}
	return solveBig(n, tab, ov)
}

// Dictionary: basic variables s_i = (b_i + sum a_ij x_j)/d, objective
// z = (ob + sum oc_j x_j)/d to be minimised. All x_j, s_i >= 0.
// A phase-1 auxiliary column x0 (index n) is used when some b_i < 0.

func mul128(a, b int64) (hi int64, lo uint64) {
	h, l := bits.Mul64(uint64(a), uint64(b))
	h -= uint64((a>>63)&b) + uint64((b>>63)&a)
	return int64(h), l
}

// mulSubDiv computes (a*p - b*c)/d exactly (division known exact).
func mulSubDiv(a, p, b, c, d int64) (int64, bool) {
	h1, l1 := mul128(a, p)
	h2, l2 := mul128(b, c)
	lo, br := bits.Sub64(l1, l2, 0)
	hi, _ := bits.Sub64(uint64(h1), uint64(h2), br)
	h := int64(hi)
	// overflow of the 128-bit subtraction cannot occur: operands < 2^126.
	neg := h < 0
	if neg {
		lo, br = bits.Sub64(0, lo, 0)
		hi, _ = bits.Sub64(0, hi, br)
	}
	ud := uint64(d)
	if d < 0 {
		ud = -ud
		neg = !neg
	}
	if hi >= ud {
		return 0, false
	}
	q, _ := bits.Div64(hi, lo, ud)
	if q > 1<<61 {
		return 0, false
	}
	if neg {
		return -int64(q), true
	}
	return int64(q), true
}

const lpIter = 400

func solveInt(n int, rows [][]int64, obj []int64) (lpResult, bool) {
	m := len(rows)
	w := n + 2 // columns 0..n-1, aux n, const n+1
	t := make([][]int64, m+2)
	anyNeg := false
	for i, r := range rows {
		v := make([]int64, w)
		copy(v, r[:n])
		v[n] = 1
		v[n+1] = r[n]
		if r[n] < 0 {
			anyNeg = true
		}
		t[i] = v
	}
	ov := make([]int64, w) // phase 2 objective
	copy(ov, obj[:n])
	ov[n+1] = obj[n]
	t[m] = ov
	pv := make([]int64, w) // phase 1 objective: minimise x0
	pv[n] = 1
	t[m+1] = pv
	d := int64(1)
	colv := make([]int, n+1) // variable in each column
	rowv := make([]int, m)
	for j := range colv {
		colv[j] = j
	}
	for i := range rowv {
		rowv[i] = n + 1 + i
	}
	dead := -1 // column excluded in phase 2
	pivot := func(r, c int) bool {
		// entering column c, leaving row r. a = t[r][c].
		a := t[r][c]
		// s_r*d = b + sum a_j x_j  => x_c = (d*s_r - b - sum_{j!=c} a_j x_j)/a
		// New denominator is |a|. Work with sign so that denominators are positive.
		sg := int64(1)
		if a < 0 {
			sg = -1
		}
		na := a * sg
		for i := range t {
			if i == r {
				continue
			}
			f := t[i][c]
			for j := 0; j < w; j++ {
				if j == c {
					continue
				}
				// (t[i][j]*a - f*t[r][j]) / d, times sg
				v, ok := mulSubDiv(t[i][j], a, f, t[r][j], d)
				if !ok {
					return false
				}
				t[i][j] = v * sg
			}
			t[i][c] = f * sg
		}
		for j := 0; j < w; j++ {
			if j != c {
				t[r][j] = -t[r][j] * sg
			}
		}
		t[r][c] = d * sg
		d = na
		rowv[r], colv[c] = colv[c], rowv[r]
		return true
	}
	iter := 0
	run := func(or int) int { // 0 optimal, 1 unbounded, 2 give up (iterations), 3 overflow
		for {
			iter++
			if iter > lpIter {
				return 2
			}
			// choose entering: negative objective coefficient (minimise)
			c := -1
			for j := 0; j <= n; j++ {
				if j == dead || t[or][j] >= 0 {
					continue
				}
				if c == -1 {
					c = j
				} else if iter < 60 {
					if t[or][j] < t[or][c] {
						c = j
					}
				} else if colv[j] < colv[c] {
					c = j
				}
			}
			if c == -1 {
				return 0
			}
			r := -1
			for i := 0; i < m; i++ {
				if t[i][c] >= 0 {
					continue
				}
				if r == -1 {
					r = i
					continue
				}
				// compare t[i].b / -t[i][c] < t[r].b / -t[r][c]
				h1, l1 := mul128(t[i][w-1], -t[r][c])
				h2, l2 := mul128(t[r][w-1], -t[i][c])
				less := h1 < h2 || h1 == h2 && l1 < l2
				eq := h1 == h2 && l1 == l2
				if less || eq && rowv[i] < rowv[r] {
					r = i
				}
			}
			if r == -1 {
				return 1
			}
			if !pivot(r, c) {
				return 3
			}
		}
	}
	if anyNeg {
		// initial pivot: x0 enters, most negative row leaves
		r := 0
		for i := 1; i < m; i++ {
			if t[i][w-1] < t[r][w-1] {
				r = i
			}
		}
		if !pivot(r, n) {
			return lpResult{}, false
		}
		switch run(m + 1) {
		case 3:
			return lpResult{}, false
		case 2:
			return lpResult{gaveUp: true}, true
		case 1:
			return lpResult{gaveUp: true}, true
		}
		if t[m+1][w-1] > 0 {
			return lpResult{infeasible: true}, true
		}
		// drive x0 out of the basis
		for i := 0; i < m; i++ {
			if rowv[i] == n {
				done := false
				for j := 0; j <= n; j++ {
					if t[i][j] != 0 {
						if !pivot(i, j) {
							return lpResult{}, false
						}
						done = true
						break
					}
				}
				if !done {
					// row is identically zero: x0 = 0 always
					for j := range t[i] {
						t[i][j] = 0
					}
				}
			}
		}
	}
	for j := range colv {
		if colv[j] == n {
			dead = j
		}
	}
	switch run(m) {
	case 3:
		return lpResult{}, false
	case 2:
		return lpResult{gaveUp: true}, true
	case 1:
		return lpResult{unbounded: true}, true
	}
	return lpResult{min: -floorDiv(-t[m][w-1], d)}, true
}

func solveBig(n int, rows [][]int64, obj []int64) lpResult {
	m := len(rows)
	w := n + 2
	mk := func() []*big.Int {
		v := make([]*big.Int, w)
		for i := range v {
			v[i] = new(big.Int)
		}
		return v
	}
	t := make([][]*big.Int, m+2)
	anyNeg := false
	for i, r := range rows {
		v := mk()
		for j := 0; j < n; j++ {
			v[j].SetInt64(r[j])
		}
		v[n].SetInt64(1)
		v[n+1].SetInt64(r[n])
		if r[n] < 0 {
			anyNeg = true
		}
		t[i] = v
	}
	t[m] = mk()
	for j := 0; j < n; j++ {
		t[m][j].SetInt64(obj[j])
	}
	t[m][n+1].SetInt64(obj[n])
	t[m+1] = mk()
	t[m+1][n].SetInt64(1)
	d := big.NewInt(1)
	colv := make([]int, n+1)
	rowv := make([]int, m)
	for j := range colv {
		colv[j] = j
	}
	for i := range rowv {
		rowv[i] = n + 1 + i
	}
	dead := -1
	pivot := func(r, c int) {
		a := new(big.Int).Set(t[r][c])
		neg := a.Sign() < 0
		x := new(big.Int)
		for i := range t {
			if i == r {
				continue
			}
			f := t[i][c]
			for j := 0; j < w; j++ {
				if j == c {
					continue
				}
				v := new(big.Int).Mul(t[i][j], a)
				v.Sub(v, x.Mul(f, t[r][j]))
				v.Quo(v, d)
				if neg {
					v.Neg(v)
				}
				t[i][j] = v
			}
			if neg {
				t[i][c] = new(big.Int).Neg(f)
			}
		}
		for j := 0; j < w; j++ {
			if j != c && !neg {
				t[r][j] = new(big.Int).Neg(t[r][j])
			}
		}
		nd := new(big.Int).Set(d)
		if neg {
			nd.Neg(nd)
		}
		t[r][c] = nd
		d = new(big.Int).Abs(a)
		rowv[r], colv[c] = colv[c], rowv[r]
	}
	iter := 0
	run := func(or int) int {
		for {
			iter++
			if iter > lpIter {
				return 2
			}
			c := -1
			for j := 0; j <= n; j++ {
				if j == dead || t[or][j].Sign() >= 0 {
					continue
				}
				if c == -1 || iter < 60 && t[or][j].Cmp(t[or][c]) < 0 || iter >= 60 && colv[j] < colv[c] {
					c = j
				}
			}
			if c == -1 {
				return 0
			}
			r := -1
			for i := 0; i < m; i++ {
				if t[i][c].Sign() >= 0 {
					continue
				}
				if r == -1 {
					r = i
					continue
				}
				p := new(big.Int).Mul(t[i][w-1], new(big.Int).Neg(t[r][c]))
				q := new(big.Int).Mul(t[r][w-1], new(big.Int).Neg(t[i][c]))
				k := p.Cmp(q)
				if k < 0 || k == 0 && rowv[i] < rowv[r] {
					r = i
				}
			}
			if r == -1 {
				return 1
			}
			pivot(r, c)
		}
	}
	if anyNeg {
		r := 0
		for i := 1; i < m; i++ {
			if t[i][w-1].Cmp(t[r][w-1]) < 0 {
				r = i
			}
		}
		pivot(r, n)
		if run(m+1) != 0 {
			return lpResult{gaveUp: true}
		}
		if t[m+1][w-1].Sign() > 0 {
			return lpResult{infeasible: true}
		}
		for i := 0; i < m; i++ {
			if rowv[i] == n {
				done := false
				for j := 0; j <= n; j++ {
					if t[i][j].Sign() != 0 {
						pivot(i, j)
						done = true
						break
					}
				}
				if !done {
					for j := range t[i] {
						t[i][j] = new(big.Int)
					}
				}
			}
		}
	}
	for j := range colv {
		if colv[j] == n {
			dead = j
		}
	}
	switch run(m) {
	case 2:
		return lpResult{gaveUp: true}
	case 1:
		return lpResult{unbounded: true}
	}
	// ceil(t/d)
	q, r := new(big.Int).QuoRem(t[m][w-1], d, new(big.Int))
	if r.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	if !q.IsInt64() || !okMag(q.Int64()) {
		return lpResult{gaveUp: true}
	}
	return lpResult{min: q.Int64()}
}
