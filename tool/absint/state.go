package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation.
type Frame struct {
	fn   *ssa.Function
	ctx  int
	regs map[ssa.Value]Val
	gtag string // the caller's tag
}

// Obj is the contents of an abstract object.
type Obj struct {
	V    Val
	Weak bool // stands for several concrete objects
	T    types.Type
}

// State is one disjunct.
type State struct {
	num    *Poly
	frames []*Frame
	heap   map[ObjID]*Obj
	refs   map[RefID]*RefInfo
	ret    Val
	gtag   string          // how the last access in the block related to the tracked element
	touch  string          // the same, in the whole history
	lost   bool            // a tracked element no longer is
	facts  map[string]bool // uninterpreted conditions known to hold or not
	trace  string          // branches taken in functions whose paths are kept apart
	hist   *hist           // the same, for people
	group  string          // the group it belonged to at the last loop head
}

// hist lists the branches taken and calls made, last first.
type hist struct {
	pos  token.Pos
	what string
	prev *hist
}

// history renders the last events of a path.
func (e *Engine) history(h *hist) string {
	var ss []string
	for n := 0; h != nil && n < 12; h = h.prev {
		p := e.Fset.Position(h.pos)
		if strings.HasPrefix(filepath.Base(p.Filename), "zz_verif") {
			if !strings.HasPrefix(h.what, "calls ") || strings.HasPrefix(h.what, "calls verif") {
				continue
			}
			p.Filename = "driver"
		}
		ss = append([]string{fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, h.what)}, ss...)
		n++
	}
	return strings.Join(ss, ", ")
}

func (e *Engine) newState() *State {
	return &State{num: e.newPoly(), heap: map[ObjID]*Obj{}, refs: map[RefID]*RefInfo{}}
}

func (s *State) clone() *State {
	n := &State{num: s.num.clone(), ret: s.ret, trace: s.trace, gtag: s.gtag, touch: s.touch, lost: s.lost, facts: s.facts, hist: s.hist, group: s.group}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := &Frame{f.fn, f.ctx, make(map[ssa.Value]Val, len(f.regs)), f.gtag}
		for k, v := range f.regs {
			g.regs[k] = v
		}
		n.frames[i] = g
	}
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.refs = make(map[RefID]*RefInfo, len(s.refs))
	for k, v := range s.refs {
		n.refs[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) info(r RefID) *RefInfo {
	if r == 0 {
		return nilInfo
	}
	if i := s.refs[r]; i != nil {
		return i
	}
	return unkInfo
}

var (
	nilInfo = &RefInfo{Nil: yes}
	unkInfo = &RefInfo{Nil: maybe, Unk: true}
)

// assume refines the state with a condition; the result may be bottom.
func (s *State) assume(c *Cond) {
	switch c.K {
	case cFalse:
		s.num.setBot()
	case cGE:
		s.num.addGE(c.L)
	case cEQ:
		s.num.addEQ(c.L)
		s.close()
	case cNE:
		s.num.addNE(c.L)
	case cAtom, cNotAtom:
		s.learn(c.S, c.K == cAtom)
	case cNil, cNon:
		i := s.info(c.R)
		want := yes
		if c.K == cNon {
			want = no
		}
		if i.Nil != maybe {
			if i.Nil != want {
				s.num.setBot()
			}
			return
		}
		n := *i
		n.Nil = want
		if want == yes {
			n = RefInfo{Nil: yes}
		}
		s.refs[c.R] = &n
	case cRefEq:
		if s.refCmp(c.R, c.Q) == no {
			s.num.setBot()
			return
		}
		a, b := s.info(c.R), s.info(c.Q)
		if a.Nil == yes || b.Nil == no {
			s.assume(&Cond{K: nilK(a.Nil == yes), R: c.Q})
		}
		if b.Nil == yes || a.Nil == no {
			s.assume(&Cond{K: nilK(b.Nil == yes), R: c.R})
		}
		if s.stableRefs(c) {
			s.learn(refAtom(c.R, c.Q), true)
		}
	case cRefNe:
		if s.refCmp(c.R, c.Q) == yes {
			s.num.setBot()
			return
		}
		if s.info(c.R).Nil == yes {
			s.assume(&Cond{K: cNon, R: c.Q})
		}
		if s.info(c.Q).Nil == yes {
			s.assume(&Cond{K: cNon, R: c.R})
		}
		if s.stableRefs(c) {
			s.learn(refAtom(c.R, c.Q), false)
		}
	}
}

func commonFacts(a, b map[string]bool) map[string]bool {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	n := map[string]bool{}
	for k, v := range a {
		if w, ok := b[k]; ok && v == w {
			n[k] = v
		}
	}
	return n
}

func (s *State) stableRefs(c *Cond) bool {
	e := s.num.e
	return e != nil && e.stableRef[c.R] && e.stableRef[c.Q]
}

func nilK(isNil bool) condKind {
	if isNil {
		return cNil
	}
	return cNon
}

// refCmp decides r == q for pointers.
func (s *State) refCmp(r, q RefID) tri {
	if r == q {
		return yes
	}
	a, b := s.info(r), s.info(q)
	if a.Nil == yes && b.Nil == yes {
		return yes
	}
	if a.Nil == yes && b.Nil == no || a.Nil == no && b.Nil == yes {
		return no
	}
	if v, ok := s.facts[refAtom(r, q)]; ok {
		if v {
			return yes
		}
		return no
	}
	if s.oneDyn(a) && s.oneDyn(b) {
		if !types.Identical(a.Dyn[0].T, b.Dyn[0].T) {
			return no
		}
		x, ok1 := a.Dyn[0].V.(VRef)
		y, ok2 := b.Dyn[0].V.(VRef)
		if ok1 && ok2 {
			return s.refCmp(x.R, y.R)
		}
	}
	if a.Unk || b.Unk || len(a.Dyn) > 0 || len(b.Dyn) > 0 || len(a.Fns) > 0 || len(b.Fns) > 0 {
		return maybe
	}
	if a.Nil != no && b.Nil != no {
		return maybe // both may be nil
	}
	common := false
	for _, t := range a.Tg {
		for _, u := range b.Tg {
			if t.Obj == u.Obj {
				common = true
			}
		}
	}
	if !common {
		return no
	}
	if len(a.Tg) == 1 && len(b.Tg) == 1 && a.Nil == no && b.Nil == no {
		t, u := a.Tg[0], b.Tg[0]
		if o := s.heap[t.Obj]; o != nil && !o.Weak && t.Path == u.Path && strings.IndexByte(t.Path, elemByte) < 0 {
			return yes
		}
	}
	return maybe
}

func (s *State) oneDyn(i *RefInfo) bool {
	return i.Nil == no && !i.Unk && len(i.Dyn) == 1 && len(i.Tg) == 0 && len(i.Fns) == 0
}

// eval decides a condition.
func (s *State) eval(c *Cond) tri {
	switch c.K {
	case cTrue:
		return yes
	case cFalse:
		return no
	case cGE:
		if s.num.entails(c.L) {
			return yes
		}
		if s.num.entails(c.L.neg().plus(-1)) {
			return no
		}
	case cEQ, cNE:
		r := maybe
		l := s.num.red(c.L)
		if len(l.t) == 0 && l.c == 0 {
			r = yes
		} else if s.num.excludes(l) {
			r = no
		}
		if c.K == cNE {
			r = flip(r)
		}
		return r
	case cNil:
		return s.info(c.R).Nil
	case cNon:
		return flip(s.info(c.R).Nil)
	case cRefEq:
		return s.refCmp(c.R, c.Q)
	case cRefNe:
		return flip(s.refCmp(c.R, c.Q))
	case cAtom, cNotAtom:
		if v, ok := s.facts[c.S]; ok {
			if v == (c.K == cAtom) {
				return yes
			}
			return no
		}
	}
	return maybe
}

func flip(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return maybe
}

// remap rewrites all slots.
func (s *State) remap(m *leafMap) {
	for _, f := range s.frames {
		for k, v := range f.regs {
			f.regs[k] = m.val(v)
		}
	}
	for id, o := range s.heap {
		s.heap[id] = &Obj{m.val(o.V), o.Weak, o.T}
	}
	refs := make(map[RefID]*RefInfo, len(s.refs))
	for id, i := range s.refs {
		refs[m.ref(id)] = m.info(i)
	}
	s.refs = refs
	if s.ret != nil {
		s.ret = m.val(s.ret)
	}
}

func idLin(l Lin) Lin     { return l }
func idRef(r RefID) RefID { return r }

// renameSyms renames symbols everywhere.
func (s *State) renameSyms(m map[Sym]Sym) {
	if len(m) == 0 {
		return
	}
	m = s.num.renameClosure(m)
	s.num.rename(m)
	s.remap(&leafMap{lin: func(l Lin) Lin { return l.rename(m) }, ref: idRef})
}

// roots lists the objects that are always reachable (globals).
func (e *Engine) isGlobal(id ObjID) bool { return e.objs[id].global }

// gc drops unreachable references and objects.
func (s *State) gc(e *Engine) {
	liveR := map[RefID]bool{}
	liveO := map[ObjID]bool{}
	var visR func(RefID)
	var vis visitor
	var work []Val
	visR = func(r RefID) {
		if r == 0 || liveR[r] {
			return
		}
		liveR[r] = true
		i := s.refs[r]
		if i == nil {
			return
		}
		for _, t := range i.Tg {
			if !liveO[t.Obj] {
				liveO[t.Obj] = true
				if o := s.heap[t.Obj]; o != nil {
					work = append(work, o.V)
				}
			}
		}
		vis.info(i)
	}
	vis = visitor{lin: func(Lin) {}, ref: visR}
	for _, f := range s.frames {
		for _, v := range f.regs {
			vis.val(v)
		}
	}
	if s.ret != nil {
		vis.val(s.ret)
	}
	for id, o := range s.heap {
		if e.isGlobal(id) && !liveO[id] {
			liveO[id] = true
			work = append(work, o.V)
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		vis.val(v)
	}
	for id := range s.heap {
		if !liveO[id] {
			delete(s.heap, id)
		}
	}
	for id := range s.refs {
		if !liveR[id] && !e.stableRef[id] {
			delete(s.refs, id)
		}
	}
}

// liveSyms collects the symbols mentioned by slots.
func (s *State) liveSyms(set map[Sym]bool) {
	vis := visitor{lin: func(l Lin) {
		for _, t := range l.t {
			set[t.s] = true
		}
	}, ref: func(RefID) {}}
	for _, f := range s.frames {
		for _, v := range f.regs {
			vis.val(v)
		}
	}
	for _, o := range s.heap {
		vis.val(o.V)
	}
	for _, i := range s.refs {
		vis.info(i)
	}
	if s.ret != nil {
		vis.val(s.ret)
	}
	if s.num != nil && s.num.e.Congruent {
		e := s.num.e
		// stable symbols can be mentioned again at any time
		s.num.eachSym(func(x Sym) {
			if e.stable[x] {
				set[x] = true
			}
		})
	}
}

func sortedRegs(m map[ssa.Value]Val) []ssa.Value {
	ks := make([]ssa.Value, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	})
	return ks
}

func (s *State) sortedObjs() []ObjID {
	ks := make([]ObjID, 0, len(s.heap))
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// siteKey identifies a program point in a context.
type siteKey struct {
	ctx  int
	at   interface{}
	kind string
}

// joiner merges two states slot by slot.
type joiner struct {
	e     *Engine
	a, b  *State
	site  siteKey
	head  bool
	widen bool
	pint  map[string]Sym
	pref  map[[2]RefID]RefID
	fresh map[Sym]bool
	out   *State
	oneA  map[Sym]bool // symbols of slots existing in a only
	oneB  map[Sym]bool
	infos map[RefID][2]*RefInfo
	queue []RefID
	chg   bool // slot structure differs from a
	usedA map[Sym]bool
	usedB map[Sym]bool
}

func (e *Engine) join(a, b *State, site siteKey, head bool) *State {
	j, _ := e.joinStates(a, b, site, head, false, false, nil)
	return j
}

// joinStates merges b into a. With head set, a is the current loop invariant.
func (e *Engine) joinStates(a, b *State, site siteKey, head, widen, strict bool, th []int64) (*State, bool) {
	if a == b {
		return a, false
	}
	e.checkBudget()
	if a.num.bot {
		return b, true
	}
	if b.num.bot {
		return a, false
	}
	j := &joiner{e: e, a: a.clone(), b: b.clone(), site: site, head: head, widen: widen,
		pint: map[string]Sym{}, pref: map[[2]RefID]RefID{}, fresh: map[Sym]bool{},
		oneA: map[Sym]bool{}, oneB: map[Sym]bool{}, infos: map[RefID][2]*RefInfo{}}
	j.a.gc(e)
	j.b.gc(e)
	j.usedA, j.usedB = map[Sym]bool{}, map[Sym]bool{}
	j.a.liveSyms(j.usedA)
	j.b.liveSyms(j.usedB)
	j.out = &State{heap: map[ObjID]*Obj{}, refs: map[RefID]*RefInfo{}, trace: a.trace, hist: a.hist, gtag: a.gtag, touch: a.touch, lost: a.lost || b.lost, facts: commonFacts(a.facts, b.facts)}
	if a.touch != b.touch {
		j.out.touch = "?"
	}
	if len(j.out.facts) != len(a.facts) {
		j.setChg()
	}
	if len(a.frames) != len(b.frames) {
		panic("joining different stacks")
	}
	for i := range a.frames {
		fa, fb := j.a.frames[i], j.b.frames[i]
		nf := &Frame{fa.fn, fa.ctx, map[ssa.Value]Val{}, fa.gtag}
		if fa.gtag != fb.gtag {
			nf.gtag = ""
		}
		for _, k := range sortedRegs(fa.regs) {
			vb, ok := fb.regs[k]
			if !ok {
				continue
			}
			nf.regs[k] = j.val("f"+strconv.Itoa(i)+"."+k.Name(), fa.regs[k], vb)
		}
		j.out.frames = append(j.out.frames, nf)
	}
	if a.ret != nil && b.ret != nil {
		j.out.ret = j.val("ret", a.ret, b.ret)
	}
	done := map[ObjID]bool{}
	for _, id := range append(j.a.sortedObjs(), j.b.sortedObjs()...) {
		if done[id] {
			continue
		}
		done[id] = true
		oa, ob := j.a.heap[id], j.b.heap[id]
		slot := "o" + strconv.Itoa(int(id))
		switch {
		case oa != nil && ob != nil:
			if oa.V == nil || ob.V == nil {
				panic("empty object")
			}
			w := oa.Weak || ob.Weak
			if w != oa.Weak {
				j.setChg()
			}
			va, vb := oa.V, ob.V
			if w && !oa.Weak {
				va = j.a.weaken(va)
			}
			if w && !ob.Weak {
				vb = j.b.weaken(vb)
			}
			j.out.heap[id] = &Obj{j.val(slot, va, vb), w, oa.T}
		case oa != nil:
			j.out.heap[id] = &Obj{j.one(slot, oa.V, true), oa.Weak, oa.T}
		default:
			j.setChg()
			j.out.heap[id] = &Obj{j.one(slot, ob.V, false), ob.Weak, ob.T}
		}
	}
	for len(j.queue) > 0 {
		r := j.queue[0]
		j.queue = j.queue[1:]
		p := j.infos[r]
		j.out.refs[r] = j.info("r"+strconv.Itoa(int(r)), p[0], p[1])
	}
	j.out.gc(e)
	live := map[Sym]bool{}
	j.out.liveSyms(live)
	if e.Congruent {
		for _, p := range []*Poly{j.a.num, j.b.num} {
			p.eachSym(func(x Sym) {
				if e.stable[x] {
					live[x] = true
				}
			})
		}
	}
	for k, n := range e.keep {
		if n > 0 {
			live[k] = true
		}
	}
	pa, pb := j.a.num, j.b.num
	if len(j.oneB) > 0 {
		q := pb.clone()
		q.project(j.oneB)
		pa.conj(q)
	}
	if len(j.oneA) > 0 {
		q := j.a.num.clone()
		q.project(j.oneA)
		pb.conj(q)
	}
	j.out.num = joinPoly(pa, pb, live, j.templates(live))
	changed := true
	if head {
		if widen {
			j.out.num = widenPoly(a.num, j.out.num, j.fresh, strict, e.hard, th)
		}
		changed = j.chg || !a.num.leq(j.out.num) || !j.out.num.leq(a.num)
	}
	return j.out, changed
}

// templates lists differences worth bounding at a loop head: between the
// registers that change and what they started from.
func (j *joiner) templates(live map[Sym]bool) []Lin {
	var ph, other []Sym
	seen := map[Sym]bool{}
	for _, id := range j.out.sortedObjs() {
		for _, g := range ghosts(nil, j.out.heap[id].V) {
			for _, t := range g.Idx.t {
				if !seen[t.s] {
					seen[t.s] = true
					other = append(other, t.s)
				}
			}
		}
	}
	if !j.head && len(other) == 0 {
		return nil
	}
	for _, f := range j.out.frames[len(j.out.frames)-1:] {
		for _, k := range sortedRegs(f.regs) {
			v, ok := f.regs[k].(VInt)
			if !ok {
				continue
			}
			for _, t := range v.L.t {
				if seen[t.s] {
					continue
				}
				seen[t.s] = true
				if j.e.phiOf[t.s] == j.site {
					ph = append(ph, t.s)
				} else if j.head {
					other = append(other, t.s)
				}
			}
		}
	}
	if len(ph) == 0 {
		return []Lin{}
	}
	for _, p := range ph {
		if !j.head {
			break
		}
		for _, q := range []*Poly{j.a.num, j.b.num} {
			for _, t := range q.red(V(p)).t {
				if live[t.s] && !seen[t.s] {
					seen[t.s] = true
					other = append(other, t.s)
				}
			}
		}
	}
	if len(ph) > 6 {
		ph = ph[:6]
	}
	if len(other) > 6 {
		other = other[:6]
	}
	var out []Lin
	for i, p := range ph {
		for _, q := range append(append([]Sym(nil), ph[i+1:]...), other...) {
			d, _ := V(p).sub(V(q))
			out = append(out, d, d.neg())
		}
	}
	// where the tracked elements are in the slices in use
	if j.head {
		var gs []*ghost
		for _, id := range j.out.sortedObjs() {
			gs = ghosts(gs, j.out.heap[id].V)
		}
		f := j.out.frames[len(j.out.frames)-1]
		done := map[string]bool{}
		for _, k := range sortedRegs(f.regs) {
			v, ok := f.regs[k].(VSlice)
			if !ok || len(v.Off.t) == 0 || len(out) > 60 {
				continue
			}
			for _, g := range gs {
				for _, p := range ph {
					d, ok1 := g.Idx.sub(v.Off)
					d, ok2 := d.sub(V(p))
					if key := d.key(); ok1 && ok2 && !done[key] {
						done[key] = true
						out = append(out, d, d.neg())
					}
				}
			}
		}
	}
	return out
}

// conj adds all constraints of q.
func (p *Poly) conj(q *Poly) {
	if q.bot {
		p.setBot()
		return
	}
	for _, s := range q.sortedEqs() {
		if l, ok := V(s).sub(q.eqs[s]); ok {
			p.addEQ(l)
		}
	}
	var bs []Sym
	for s := range q.box {
		bs = append(bs, s)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for _, s := range bs {
		p.addItv(V(s), q.box[s])
	}
	for _, c := range q.sortedCons() {
		p.addGE(c)
	}
	for _, l := range q.ne {
		p.addNE(l)
	}
	for _, f := range q.facts {
		p.addFact(f)
	}
}

func (p *Poly) addFact(f *fact) {
	for _, g := range p.facts {
		if f == g || f.kind == g.kind && f.res == g.res && f.same(g) {
			return
		}
	}
	p.facts = append(p.facts, f)
	if f.kind == factSelect && !p.bot {
		nf := *f
		p.facts[len(p.facts)-1] = &nf
		p.applySelect(&nf)
	}
}

func (j *joiner) lin(slot string, la, lb Lin) Lin {
	if la.eq(lb) {
		return la
	}
	ra, rb := j.a.num.red(la), j.b.num.red(lb)
	if ra.eq(rb) {
		return ra
	}
	key := ra.key() + "|" + rb.key()
	s, ok := j.pint[key]
	if j.head && !ok {
		if l, ok := j.stride(slot, la, lb, ra, rb); ok {
			return l
		}
	}
	if !ok {
		s = j.phi(slot, la, lb)
		j.pint[key] = s
		if !la.eq(V(s)) {
			j.fresh[s] = true
			j.setChg()
			d, _ := V(s).sub(la)
			j.a.num.addEQ(d)
		}
		if !lb.eq(V(s)) {
			d, _ := V(s).sub(lb)
			j.b.num.addEQ(d)
		}
	} else if !la.eq(V(s)) {
		j.setChg()
	}
	return V(s)
}

// stride names the joined value of a loop variable that moves by multiples of
// a constant g > 1: base + g*k, with k the changing part.
func (j *joiner) stride(slot string, la, lb, ra, rb Lin) (Lin, bool) {
	k := j.e.phiSym(j.site, slot+"/k")
	base := la
	g := la.coef(k)
	if g != 0 {
		base, _ = comb(1, la, -g, V(k))
	} else if j.usedA[k] {
		return Lin{}, false
	}
	if j.usedB[k] || lb.coef(k) != 0 {
		return Lin{}, false
	}
	for _, t := range base.t {
		if j.e.phiOf[t.s] == j.site {
			return Lin{}, false
		}
	}
	d, ok := lb.sub(base)
	if !ok {
		return Lin{}, false
	}
	n := gcd(g, d.c)
	for _, t := range d.t {
		n = gcd(n, t.k)
	}
	if n < 2 || g != 0 && n != g {
		return Lin{}, false
	}
	div := func(l Lin) Lin {
		r := Lin{c: l.c / n}
		for _, t := range l.t {
			r.t = append(r.t, term{t.s, t.k / n})
		}
		return r
	}
	r, ok := comb(1, base, n, V(k))
	if !ok {
		return Lin{}, false
	}
	kb := div(d)
	if g == 0 {
		j.fresh[k] = true
		j.chg = true
		j.a.num.addEQ(V(k))
	}
	e, ok := V(k).sub(kb)
	if !ok {
		return Lin{}, false
	}
	j.usedA[k], j.usedB[k] = true, true
	j.b.num.addEQ(e)
	return r, true
}

// phi names the joined value of a slot; the name must not mean something else
// in either state.
func (j *joiner) phi(slot string, la, lb Lin) Sym {
	for {
		s := j.e.phiSym(j.site, slot)
		if (la.eq(V(s)) || !j.usedA[s]) && (lb.eq(V(s)) || !j.usedB[s]) {
			j.usedA[s], j.usedB[s] = true, true
			return s
		}
		slot += "'"
	}
}

// linOne handles a slot that exists on one side only.
func (j *joiner) linOne(slot string, l Lin, inA bool) Lin {
	side, one := j.b, j.oneB
	if inA {
		side, one = j.a, j.oneA
	}
	if _, c := l.isConst(); c {
		return l
	}
	if j.head {
		var s Sym
		for {
			s = j.e.phiSym(j.site, slot)
			if l.eq(V(s)) || !j.usedA[s] && !j.usedB[s] {
				break
			}
			slot += "'"
		}
		j.usedA[s], j.usedB[s] = inA, !inA
		if !l.eq(V(s)) {
			d, _ := V(s).sub(l)
			side.num.addEQ(d)
			if inA {
				j.setChg()
			}
			j.fresh[s] = true
		}
		l = V(s)
	}
	other, used := j.a, j.usedA
	if inA {
		other, used = j.b, j.usedB
	}
	for _, t := range l.t {
		if !used[t.s] && !other.num.mentions(t.s) {
			one[t.s] = true
		}
	}
	return l
}

func (p *Poly) mentions(s Sym) bool {
	if _, ok := p.eqs[s]; ok {
		return true
	}
	if _, ok := p.box[s]; ok {
		return true
	}
	for _, l := range p.eqs {
		if l.coef(s) != 0 {
			return true
		}
	}
	for _, l := range p.cons {
		if l.coef(s) != 0 {
			return true
		}
	}
	return false
}

func (j *joiner) ref(slot string, ra, rb RefID) RefID {
	if ra == rb {
		if ra != 0 {
			if _, ok := j.infos[ra]; !ok {
				j.infos[ra] = [2]*RefInfo{j.a.info(ra), j.b.info(rb)}
				j.queue = append(j.queue, ra)
			}
		}
		return ra
	}
	k := [2]RefID{ra, rb}
	if r, ok := j.pref[k]; ok {
		if r != ra {
			j.setChg()
		}
		return r
	}
	r := j.e.phiRef(j.site, slot)
	if r != ra {
		j.setChg()
	}
	j.pref[k] = r
	j.infos[r] = [2]*RefInfo{j.a.info(ra), j.b.info(rb)}
	j.queue = append(j.queue, r)
	return r
}

func (j *joiner) refOne(slot string, r RefID, inA bool) RefID {
	if r == 0 {
		return 0
	}
	side := j.b
	if inA {
		side = j.a
	}
	n := r
	if j.head {
		n = j.e.phiRef(j.site, slot)
		if n != r && inA {
			j.setChg()
		}
	}
	if _, ok := j.infos[n]; !ok {
		if inA {
			j.infos[n] = [2]*RefInfo{side.info(r), nil}
		} else {
			j.infos[n] = [2]*RefInfo{nil, side.info(r)}
		}
		j.queue = append(j.queue, n)
	}
	return n
}

func (j *joiner) ver(slot string, a, b int) int {
	if a == b {
		return a
	}
	v := j.e.phiVer(j.site, slot)
	if v != a {
		j.setChg()
	}
	return v
}

func (j *joiner) val(slot string, a, b Val) Val {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{j.lin(slot, x.L, y.L)}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if x.C.eq(y.C) {
				if x.C.K > cFalse {
					// references inside must stay alive
					c := *x.C
					c.R, c.Q = j.ref(slot+"r", c.R, c.R), j.ref(slot+"q", c.Q, c.Q)
				}
				return x
			}
			if x.C.K != cUnk {
				j.setChg()
			}
			return VBool{condUnk}
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			r := VStr{Len: j.lin(slot+".len", x.Len, y.Len)}
			if x.S != nil && y.S != nil && *x.S == *y.S {
				r.S = x.S
			} else if x.S != nil {
				j.setChg()
			}
			if x.Gh != nil {
				if y.Gh != nil && x.Gh.N == y.Gh.N {
					r.Gh = &ghost{j.lin(slot+".gi", x.Gh.Idx, y.Gh.Idx), j.val(slot+".g", x.Gh.V, y.Gh.V), x.Gh.N, x.Gh.P || y.Gh.P}
				} else {
					j.setChg()
				}
			}
			return r
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			return VSlice{j.ref(slot+".arr", x.Arr, y.Arr), j.lin(slot+".off", x.Off, y.Off),
				j.lin(slot+".len", x.Len, y.Len), j.lin(slot+".cap", x.Cap, y.Cap), j.ver(slot, x.Ver, y.Ver)}
		}
	case VRef:
		if y, ok := b.(VRef); ok {
			return VRef{j.ref(slot, x.R, y.R)}
		}
	case VAgg:
		if y, ok := b.(VAgg); ok && len(y.F) == len(x.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = j.val(slot+"."+strconv.Itoa(i), x.F[i], y.F[i])
			}
			return VAgg{f}
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			r := VArr{N: j.lin(slot+".n", x.N, y.N), El: x.El, Sum: x.Sum || y.Sum}
			r.Elem = j.val(slot+".e", x.Elem, y.Elem)
			for i, k := range x.Kn {
				for _, k2 := range y.Kn {
					if k.ver != k2.ver {
						continue
					}
					if k.idx.eq(k2.idx) || j.a.num.red(k.idx).eq(j.b.num.red(k2.idx)) {
						sl := slot + ".k" + strconv.Itoa(i)
						r.Kn = append(r.Kn, known{k.ver, j.lin(sl+"i", k.idx, k2.idx), j.val(sl, k.v, k2.v)})
						break
					}
				}
			}
			if len(r.Kn) != len(x.Kn) {
				j.setChg()
			}
			if x.Gh != nil {
				if y.Gh != nil && x.Gh.N == y.Gh.N {
					r.Gh = &ghost{j.lin(slot+".gi", x.Gh.Idx, y.Gh.Idx), j.val(slot+".g", x.Gh.V, y.Gh.V), x.Gh.N, x.Gh.P || y.Gh.P}
				} else {
					j.setChg()
				}
			}
			return r
		}
	case VTerm:
		if y, ok := b.(VTerm); ok && x.P.key == y.P.key {
			return x
		}
	case VRange:
		if y, ok := b.(VRange); ok {
			n := x.R.join(y.R)
			if n != x.R {
				j.setChg()
				if j.widen {
					if n.lo < x.R.lo {
						lo := int64(negInf)
						for _, t := range thresholds {
							if t <= n.lo {
								lo = t
							}
						}
						n.lo = lo
					}
					if n.hi > x.R.hi {
						hi := int64(posInf)
						for i := len(thresholds) - 1; i >= 0; i-- {
							if thresholds[i] >= n.hi {
								hi = thresholds[i]
							}
						}
						n.hi = hi
					}
				}
			}
			return VRange{n}
		}
	}
	if _, ok := a.(VTop); !ok {
		j.setChg()
	}
	return VTop{}
}

func (j *joiner) one(slot string, v Val, inA bool) Val {
	n := 0
	sub := func() string { n++; return slot + "." + strconv.Itoa(n) }
	m := &leafMap{
		lin: func(l Lin) Lin { return j.linOne(sub(), l, inA) },
		ref: func(r RefID) RefID { return j.refOne(sub(), r, inA) },
	}
	return m.val(v)
}

func (j *joiner) info(slot string, a, b *RefInfo) *RefInfo {
	if a == nil || b == nil {
		inA := b == nil
		x := a
		if inA == false {
			x = b
		}
		n := 0
		sub := func() string { n++; return slot + "." + strconv.Itoa(n) }
		m := &leafMap{
			lin: func(l Lin) Lin { return j.linOne(sub(), l, inA) },
			ref: func(r RefID) RefID { return j.refOne(sub(), r, inA) },
		}
		return m.info(x)
	}
	r := &RefInfo{Nil: a.Nil.join(b.Nil), Unk: a.Unk || b.Unk}
	if r.Nil != a.Nil || r.Unk != a.Unk {
		j.setChg()
	}
	used := map[int]bool{}
	for _, t := range a.Tg {
		found := false
		for k, u := range b.Tg {
			if !used[k] && t.Obj == u.Obj && t.Path == u.Path {
				used[k], found = true, true
				sl := slot + ".o" + strconv.Itoa(int(t.Obj)) + t.Path
				r.Tg = append(r.Tg, Target{t.Obj, t.Path, j.lin(sl, t.Idx, u.Idx), j.ver(sl, t.Ver, u.Ver)})
				break
			}
		}
		if !found {
			sl := slot + ".o" + strconv.Itoa(int(t.Obj)) + t.Path
			r.Tg = append(r.Tg, Target{t.Obj, t.Path, j.linOne(sl, t.Idx, true), t.Ver})
		}
	}
	for k, u := range b.Tg {
		if !used[k] {
			j.setChg()
			sl := slot + ".o" + strconv.Itoa(int(u.Obj)) + u.Path
			r.Tg = append(r.Tg, Target{u.Obj, u.Path, j.linOne(sl, u.Idx, false), u.Ver})
		}
	}
	sortTargets(r.Tg)
	usedD := map[int]bool{}
	for i, d := range a.Dyn {
		found := false
		for k, x := range b.Dyn {
			if !usedD[k] && types.Identical(d.T, x.T) {
				usedD[k], found = true, true
				r.Dyn = append(r.Dyn, dyn{d.T, j.val(slot+".d"+strconv.Itoa(i), d.V, x.V)})
				break
			}
		}
		if !found {
			r.Dyn = append(r.Dyn, dyn{d.T, j.one(slot+".d"+d.T.String(), d.V, true)})
		}
	}
	for k, x := range b.Dyn {
		if !usedD[k] {
			j.setChg()
			r.Dyn = append(r.Dyn, dyn{x.T, j.one(slot+".d"+x.T.String(), x.V, false)})
		}
	}
	usedF := map[int]bool{}
	for i, f := range a.Fns {
		found := false
		for k, g := range b.Fns {
			if !usedF[k] && f.Fn == g.Fn && len(f.Binds) == len(g.Binds) {
				usedF[k], found = true, true
				n := fnVal{Fn: f.Fn}
				for x := range f.Binds {
					n.Binds = append(n.Binds, j.val(slot+".b"+strconv.Itoa(i)+"."+strconv.Itoa(x), f.Binds[x], g.Binds[x]))
				}
				r.Fns = append(r.Fns, n)
				break
			}
		}
		if !found {
			n := fnVal{Fn: f.Fn}
			for x := range f.Binds {
				n.Binds = append(n.Binds, j.one(slot+".b"+f.Fn.Name()+strconv.Itoa(x), f.Binds[x], true))
			}
			r.Fns = append(r.Fns, n)
		}
	}
	for k, g := range b.Fns {
		if !usedF[k] {
			j.setChg()
			n := fnVal{Fn: g.Fn}
			for x := range g.Binds {
				n.Binds = append(n.Binds, j.one(slot+".b"+g.Fn.Name()+strconv.Itoa(x), g.Binds[x], false))
			}
			r.Fns = append(r.Fns, n)
		}
	}
	return r
}

// elemByte marks an element of a summarised array in a path.
const elemByte = 255

// weaken turns a value into its summary form: integers become intervals,
// slices {ref, off, len, cap}, strings {len}.
func (s *State) weaken(v Val) Val {
	return summaryOf(v, s.num.itvOf)
}

func summaryOf(v Val, rng func(Lin) itv) Val {
	switch x := v.(type) {
	case VInt:
		return VRange{rng(x.L)}
	case VBool:
		if x.C.K <= cFalse {
			return x
		}
		return VBool{condUnk}
	case VStr:
		return VAgg{[]Val{VRange{rng(x.Len)}}}
	case VSlice:
		return VAgg{[]Val{VRef{x.Arr}, VRange{rng(x.Off)}, VRange{rng(x.Len)}, VRange{rng(x.Cap)}}}
	case VAgg:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = summaryOf(x.F[i], rng)
		}
		return VAgg{f}
	case VArr:
		x.Kn, x.Gh = nil, nil
		return x
	}
	return v
}

func (j *joiner) setChg() { j.chg = true }
