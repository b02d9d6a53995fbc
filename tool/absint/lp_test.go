package absint

import (
	"math/rand"
	"testing"
)

func TestLP(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	e := &Engine{prods: map[[2]Sym]Sym{}}
	var ss []Sym
	for i := 0; i < 3; i++ {
		ss = append(ss, e.newSym("x", itv{-4, 4}))
	}
	inf, exact, loose := 0, 0, 0
	for it := 0; it < 20000; it++ {
		var rows []Lin
		rl := func() Lin {
			l := K(int64(rng.Intn(9) - 4))
			for _, s := range ss {
				l, _ = comb(1, l, int64(rng.Intn(7)-3), V(s))
			}
			return l
		}
		for i := 0; i < 1+rng.Intn(5); i++ {
			rows = append(rows, rl())
		}
		obj := rl()
		res := lpMin(obj, rows, func(s Sym) itv { return e.syms[s].rng })
		// brute force over integers
		best, any := int64(1<<40), false
		ev := func(l Lin, x [3]int64) int64 {
			r := l.c
			for _, tt := range l.t {
				r += tt.k * x[tt.s]
			}
			return r
		}
		for a := int64(-4); a <= 4; a++ {
			for b := int64(-4); b <= 4; b++ {
			nx:
				for c := int64(-4); c <= 4; c++ {
					x := [3]int64{a, b, c}
					for _, r := range rows {
						if ev(r, x) < 0 {
							continue nx
						}
					}
					any = true
					best = min(best, ev(obj, x))
				}
			}
		}
		if res.gaveUp || res.unbounded {
			t.Fatalf("gave up %+v", res)
		}
		if res.infeasible {
			inf++
			if any {
				t.Fatalf("infeasible but has solution: %v", rows)
			}
			continue
		}
		if any && res.min > best {
			t.Fatalf("min %d > best %d", res.min, best)
		}
		if any && res.min == best {
			exact++
		} else {
			loose++
		}
		// big solver agrees
	}
	t.Log(inf, exact, loose)
	if exact < 10*loose {
		t.Log("many loose")
	}
}

// Random polyhedra: operations preserve integer points.
func TestPoly(t *testing.T) {
	rng := rand.New(rand.NewSource(2))
	for it := 0; it < 3000; it++ {
		e := &Engine{prods: map[[2]Sym]Sym{}, prodOf: map[Sym][2]Sym{}}
		var ss []Sym
		for i := 0; i < 4; i++ {
			ss = append(ss, e.newSym("x", itv{-3, 3}))
		}
		x := map[Sym]int64{}
		for _, s := range ss {
			x[s] = int64(rng.Intn(7) - 3)
		}
		ev := func(l Lin) int64 {
			r := l.c
			for _, tt := range l.t {
				r += tt.k * x[tt.s]
			}
			return r
		}
		refresh := func() {
			for s := Sym(0); int(s) < len(e.syms); s++ {
				if k, ok := e.prodOf[s]; ok {
					x[s] = x[k[0]] * x[k[1]]
				}
			}
		}
		p := e.newPoly()
		for i := 0; i < 6; i++ {
			l := K(int64(rng.Intn(9) - 4))
			for _, s := range ss {
				if rng.Intn(2) == 0 {
					l, _ = comb(1, l, int64(rng.Intn(5)-2), V(s))
				}
			}
			v := ev(l)
			switch rng.Intn(4) {
			case 0:
				p.addEQ(l.plus(-v))
			case 1:
				if v < 0 {
					l = l.neg()
				}
				p.addGE(l)
			case 2:
				if v != 0 {
					p.addNE(l)
				}
			case 3:
				a, b := ss[rng.Intn(4)], ss[rng.Intn(4)]
				p.mulLin(V(a), V(b))
			}
			refresh()
			if p.bot {
				t.Fatalf("bot with point %v", x)
			}
		}
		check := func(what string) {
			refresh()
			for s, r := range p.eqs {
				if x[s] != ev(r) {
					t.Fatalf("%s: eq violated", what)
				}
			}
			for _, c := range p.cons {
				if ev(c) < 0 {
					t.Fatalf("%s: con violated", what)
				}
			}
			for s, b := range p.box {
				if x[s] < b.lo || x[s] > b.hi {
					t.Fatalf("%s: box violated %v %v", what, x[s], b)
				}
			}
			for _, l := range p.ne {
				if ev(l) == 0 {
					t.Fatalf("%s: ne", what)
				}
			}
		}
		check("build")
		l := K(int64(rng.Intn(9) - 4))
		for _, s := range ss {
			l, _ = comb(1, l, int64(rng.Intn(5)-2), V(s))
		}
		if p.entails(l) && ev(l) < 0 {
			t.Fatalf("entails wrong")
		}
		live := map[Sym]bool{}
		for _, s := range ss {
			if rng.Intn(2) == 0 {
				live[s] = true
			}
		}
		p.project(live)
		if p.bot {
			t.Fatal("bot after project")
		}
		check("project")
	}
}
