package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P06", "proof", checkErrors) }

// nilness facts about error values along one path.
type nilFact int8

const (
	maybe nilFact = iota
	isNil
	notNil
)

// definitely classifies a value without path information.
func definitely(v ssa.Value, depth int) nilFact {
	switch x := stripConv(v).(type) {
	case *ssa.Const:
		if x.Value == nil {
			return isNil
		}
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return definitely(x.X, depth)
		}
		return notNil
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.MakeClosure, *ssa.Function:
		return notNil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return maybe
		}
		switch f.RelString(nil) {
		case "errors.New", "fmt.Errorf":
			return notNil
		}
		if depth < 4 && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			all := maybe
			for i, b := range f.Blocks {
				_ = i
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					d := definitely(r.Results[0], depth+1)
					if d == maybe || all != maybe && d != all {
						return maybe
					}
					all = d
				}
			}
			return all
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErr(g.Type().Underlying().(*types.Pointer).Elem()) {
				return notNil // sentinel error variables
			}
		}
	case *ssa.Phi:
		if depth > 4 {
			return maybe
		}
		all := maybe
		for i, e := range x.Edges {
			if e == x {
				continue
			}
			d := definitely(e, depth+1)
			if d == maybe || i > 0 && all != maybe && d != all {
				return maybe
			}
			all = d
		}
		return all
	}
	return maybe
}

// pathState is the part of a path that matters: which values equal the
// tracked error, whether it is known to be nil, and nilness facts of others.
type pathState struct {
	blk   *ssa.BasicBlock
	idx   int
	from  *ssa.BasicBlock
	facts map[ssa.Value]nilFact
	track ssa.Value // the error being followed
	phis  map[ssa.Value]ssa.Value
}

func (s *pathState) clone() *pathState {
	n := &pathState{track: s.track, blk: s.blk, idx: s.idx, from: s.from, facts: map[ssa.Value]nilFact{}, phis: map[ssa.Value]ssa.Value{}}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.phis {
		n.phis[k] = v
	}
	return n
}

func (s *pathState) key() string {
	var p []string
	for k, v := range s.facts {
		p = append(p, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	for k, v := range s.phis {
		p = append(p, k.Name()+">"+v.Name())
	}
	sort.Strings(p)
	return fmt.Sprintf("%d/%d %s", s.blk.Index, s.idx, strings.Join(p, ","))
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

func (s *pathState) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		v = stripConv(v)
		n, ok := s.phis[v]
		if !ok {
			return v
		}
		v = n
	}
	return v
}

// nilOf gives what is known of v. A boolean counts as nil when it is true, so
// that, like an error, it is nil when all is well.
func (s *pathState) nilOf(v ssa.Value) nilFact {
	v, same := s.root(v)
	d, ok := s.facts[v]
	if !ok {
		d = definitely(v, 0)
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && isBool(k.Type()) {
		d = notNil
		if k.Value.String() == "true" {
			d = isNil
		}
	}
	if !same && d != maybe {
		d = isNil + notNil - d
	}
	return d
}

// root strips comparisons with nil and negations off v.
func (s *pathState) root(v ssa.Value) (ssa.Value, bool) {
	same := true
	for {
		v = s.resolve(v)
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				v, same = x.X, !same
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				o := x.X
				if isNilConst(o) {
					o = x.Y
				} else if !isNilConst(x.Y) {
					return v, same
				}
				if nillable(o.Type()) {
					v, same = o, same == (x.Op == token.EQL)
					continue
				}
			}
		}
		return v, same
	}
}

// branch interprets an If; returns the states of the two successors (nil if
// the edge is infeasible).
func (s *pathState) branch(x *ssa.If) [2]*pathState {
	var out [2]*pathState
	v, same := s.root(x.Cond)
	for i := 0; i < 2; i++ {
		want := notNil
		if (i == 0) == same {
			want = isNil
		}
		if have := s.nilOf(v); have != maybe && have != want {
			continue
		}
		n := s.clone()
		n.facts[v] = want
		n.enter(s.blk, s.blk.Succs[i])
		out[i] = n
	}
	return out
}

// enter moves along an edge, resolving phis.
func (s *pathState) enter(from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type asg struct {
		phi *ssa.Phi
		val ssa.Value
	}
	var as []asg
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if nillable(p.Type()) || isBool(p.Type()) {
			as = append(as, asg{p, s.resolve(p.Edges[pi])})
		}
	}
	for _, a := range as {
		if a.val == a.phi {
			continue
		}
		s.phis[a.phi] = a.val
	}
	s.from, s.blk, s.idx = from, to, 0
	s.prune()
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			s.idx++
		}
	}
}

// prune forgets what no later instruction can observe.
func (s *pathState) prune() {
	live := liveOf(s.blk.Parent()).in[s.blk]
	for p := range s.phis {
		if !live[p] {
			delete(s.phis, p)
		}
	}
	keep := map[ssa.Value]bool{s.track: true}
	for _, v := range s.phis {
		keep[v] = true
	}
	for v := range s.facts {
		if !live[v] && !keep[v] {
			delete(s.facts, v)
		}
	}
}

// define forgets the previous value of a register that is computed again.
func (s *pathState) define(v ssa.Value) {
	for p, x := range s.phis {
		if x == v {
			f := s.nilOf(v)
			delete(s.phis, p)
			if f != maybe {
				s.facts[p] = f
			}
		}
	}
	delete(s.facts, v)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// checkErrors: every error a callee reports is propagated, and Parse returns
// exactly one of a font and an error.
func checkErrors(c *Ctx) {
	r := c.Res
	r.Rule = "on every path from a call that may fail to a return, the error is tested, and where it may be non-nil the function itself reports failure (a non-nil error, false, or zero results); functions returning (pointer, error) return exactly one non-nil"
	r.Explanation = "path-sensitive nilness dataflow over the SSA form of every function of the three library packages that calls an error-returning function or returns (pointer, error)"
	r.Assumptions = []string{"package-level error variables are non-nil"}
	status := c.statusFuncs()
	for _, f := range c.libFuncs() {
		r.Fn(fname(f))
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				res := ci.Common().Signature().Results()
				ei := -1
				for k := 0; k < res.Len(); k++ {
					if isErr(res.At(k).Type()) {
						ei = k
					}
				}
				if cal := ci.Common().StaticCallee(); cal != nil && ei < 0 && status[cal] {
					ei = res.Len() - 1
				}
				if ei < 0 {
					continue
				}
				if cal := ci.Common().StaticCallee(); cal != nil {
					switch cal.RelString(nil) {
					case "errors.New", "fmt.Errorf":
						continue // constructors
					}
				}
				c.checkErrCall(f, b, i, ci, ei)
			}
		}
		c.checkExactlyOne(f)
	}
	for _, want := range []string{"Parse"} {
		if c.P.Func(pkgTT, want) == nil {
			r.Bad("anchor", "?", "entry point %s not found", want)
		}
	}
	if r.counts["error_call_sites"] < 10 {
		r.Bad("vacuous", "?", "only %d error call sites found", r.counts["error_call_sites"])
	}
}

// statusFuncs finds the functions whose last result tells, as a boolean,
// whether a callee reported an error.
func (c *Ctx) statusFuncs() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.libFuncs() {
			res := f.Signature.Results()
			if m[f] || res.Len() == 0 || !isBool(res.At(res.Len()-1).Type()) {
				continue
			}
			fails := false
			for k := 0; k < res.Len(); k++ {
				fails = fails || isErr(res.At(k).Type())
			}
			if fails {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if cal := ci.Common().StaticCallee(); cal != nil && m[cal] {
						fails = true
					}
					for k, rs := 0, ci.Common().Signature().Results(); k < rs.Len(); k++ {
						fails = fails || isErr(rs.At(k).Type())
					}
				}
			}
			if fails {
				m[f], changed = true, true
			}
		}
	}
	return m
}

func calleeName(ci ssa.CallInstruction) string {
	if f := ci.Common().StaticCallee(); f != nil {
		return fname(f)
	}
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name()
	}
	return "function value"
}

func (c *Ctx) checkErrCall(f *ssa.Function, b *ssa.BasicBlock, i int, ci ssa.CallInstruction, ei int) {
	r := c.Res
	key := "error-propagation:" + fname(f) + "->" + calleeName(ci)
	r.Count("error_call_sites", 1)
	call, ok := ci.(*ssa.Call)
	if !ok {
		r.Bad(key, c.posOf(ci), "the error of a go/defer call to %s is lost", calleeName(ci))
		return
	}
	var ev ssa.Value
	if call.Call.Signature().Results().Len() == 1 {
		ev = call
	} else {
		for _, ref := range *call.Referrers() {
			if x, ok := ref.(*ssa.Extract); ok && x.Index == ei {
				ev = x
			}
		}
	}
	if ev == nil {
		r.Bad(key, c.posOf(call), "%s ignores the error returned by %s", fname(f), calleeName(ci))
		return
	}
	st := &pathState{track: ev, blk: b, idx: i + 1, facts: map[ssa.Value]nilFact{}, phis: map[ssa.Value]ssa.Value{}}
	seen := map[string]bool{}
	work := []*pathState{st}
	bad := ""
	badPos := ""
	n := 0
	stores := map[ssa.Value]bool{}
	for len(work) > 0 && bad == "" {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.nilOf(ev) == isNil {
			continue // the call succeeded: nothing to report
		}
		k := s.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		n++
		if n > 20000 {
			bad, badPos = "path exploration exceeded its bound", c.posOf(call)
			break
		}
		done := false
		for _, in := range s.blk.Instrs[s.idx:] {
			if v, ok := in.(ssa.Value); ok && v != ev {
				s.define(v)
			}
			switch x := in.(type) {
			case *ssa.Call:
				if x == call && s.nilOf(ev) != isNil {
					bad, badPos = "the call is repeated before its error is examined", c.posOf(x)
				}
			case *ssa.Store:
				if s.resolve(x.Val) == ev {
					stores[x.Addr] = true
				}
			case *ssa.Return:
				if s.nilOf(ev) == isNil {
					break
				}
				if msg := s.failureReturn(f, x, ev, stores); msg != "" {
					bad, badPos = msg, c.posOf(x)
				}
			case *ssa.If:
				for _, ns := range s.branch(x) {
					if ns != nil {
						work = append(work, ns)
					}
				}
				done = true
			case *ssa.Jump:
				ns := s.clone()
				ns.enter(s.blk, s.blk.Succs[0])
				work = append(work, ns)
				done = true
			case *ssa.Panic:
				done = true
			}
			if done || bad != "" {
				break
			}
		}
	}
	if bad != "" {
		r.Bad(key, badPos, "%s may drop the error returned by %s (called at %s): %s", fname(f), calleeName(ci), c.posOf(call), bad)
		return
	}
	r.OK("%s: %s propagates the error of %s (%d path states)", c.posOf(call), fname(f), calleeName(ci), n)
}

// failureReturn says why a return with a possibly non-nil error does not
// report failure, or "".
func (s *pathState) failureReturn(f *ssa.Function, x *ssa.Return, ev ssa.Value, stores map[ssa.Value]bool) string {
	res := f.Signature.Results()
	for k := 0; k < res.Len(); k++ {
		if isErr(res.At(k).Type()) {
			v := s.resolve(x.Results[k])
			if v == ev || s.nilOf(v) == notNil {
				return ""
			}
			if u, ok := v.(*ssa.UnOp); ok && stores[u.X] {
				return ""
			}
			return "a path on which it may be non-nil returns no error"
		}
	}
	for k := res.Len() - 1; k >= 0; k-- {
		if isBool(res.At(k).Type()) {
			if v, same := s.root(x.Results[k]); v == ev && same {
				return ""
			}
			break
		}
	}
	if s.nilOf(ev) == maybe {
		return "a path returns without testing it"
	}
	// No error result: a false status, or nothing but zero values.
	for k := res.Len() - 1; k >= 0; k-- {
		if isBool(res.At(k).Type()) {
			if s.nilOf(x.Results[k]) == notNil {
				return ""
			}
			return "a path on which it is non-nil does not return false"
		}
	}
	for k := 0; k < res.Len(); k++ {
		if !isZeroConst(s.resolve(x.Results[k])) {
			return "a path on which it is non-nil returns a non-zero result"
		}
	}
	return ""
}

func (c *Ctx) checkExactlyOne(f *ssa.Function) {
	res := f.Signature.Results()
	if res.Len() != 2 || !isErr(res.At(1).Type()) {
		return
	}
	if _, ok := res.At(0).Type().Underlying().(*types.Pointer); !ok {
		return
	}
	r := c.Res
	key := "exactly-one:" + fname(f)
	st := &pathState{blk: f.Blocks[0], facts: map[ssa.Value]nilFact{}, phis: map[ssa.Value]ssa.Value{}}
	seen := map[string]bool{}
	work := []*pathState{st}
	n, rets := 0, map[*ssa.Return]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := s.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		if n++; n > 200000 {
			r.Bad(key, c.P.Pos(f.Pos()), "path exploration exceeded its bound")
			return
		}
		for _, in := range s.blk.Instrs[s.idx:] {
			if v, ok := in.(ssa.Value); ok {
				s.define(v)
			}
			switch x := in.(type) {
			case *ssa.Return:
				rets[x] = true
				a, b := s.resolve(x.Results[0]), s.resolve(x.Results[1])
				// Both results of one call that itself obeys the rule.
				ea, ok1 := a.(*ssa.Extract)
				eb, ok2 := b.(*ssa.Extract)
				if ok1 && ok2 && ea.Tuple == eb.Tuple && ea.Index == 0 && eb.Index == 1 {
					continue
				}
				na, nb := s.nilOf(a), s.nilOf(b)
				if na == isNil && nb == notNil || na == notNil && nb == isNil {
					continue
				}
				if (na == maybe || nb == maybe) && !(na == isNil && nb == isNil) && !(na == notNil && nb == notNil) {
					r.Bad(key, c.posOf(x), "%s: cannot show that exactly one of the two results is non-nil", fname(f))
				} else {
					r.Bad(key, c.posOf(x), "%s: a path returns %s", fname(f), map[bool]string{true: "neither a value nor an error", false: "both a value and an error"}[na == isNil])
				}
				return
			case *ssa.If:
				for _, ns := range s.branch(x) {
					if ns != nil {
						work = append(work, ns)
					}
				}
			case *ssa.Jump:
				ns := s.clone()
				ns.enter(s.blk, s.blk.Succs[0])
				work = append(work, ns)
			}
		}
	}
	r.Count("exactly_one_functions", 1)
	r.OK("%s: %s returns exactly one of value and error on its %d returns (%d path states)", c.P.Pos(f.Pos()), fname(f), len(rets), n)
}
