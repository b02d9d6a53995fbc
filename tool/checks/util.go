package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"ftverif/load"
)

const (
	pkgRoot   = load.RepoPath
	pkgRaster = load.RepoPath + "/raster"
	pkgTT     = load.RepoPath + "/truetype"
)

var libPkgs = []string{pkgRoot, pkgRaster, pkgTT}

func isLib(path string) bool {
	return path == pkgRoot || path == pkgRaster || path == pkgTT
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// libFuncs returns every function with a body in the three library packages,
// including closures, wrappers excluded.
func (c *Ctx) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(c.P.SSA) {
		if len(f.Blocks) == 0 || !isLib(fnPkg(f)) {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

func fname(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, load.RepoPath+"/", "")
	s = strings.ReplaceAll(s, load.RepoPath, "freetype")
	return s
}

// posOf finds a usable source position for an instruction.
func (c *Ctx) posOf(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return c.P.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return c.P.Pos(r.Pos())
				}
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return c.P.Pos(i.Pos())
			}
		}
	}
	return c.P.Pos(in.Parent().Pos())
}

// named returns the named type (through pointers) as pkgpath.Name.
func named(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func structOf(t types.Type) *types.Struct {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, _ := t.(*types.Struct)
	return s
}

// fieldKey names the struct field an instruction selects.
func fieldKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return tkey(v.X.Type()) + "." + structOf(v.X.Type()).Field(v.Field).Name()
	case *ssa.Field:
		return tkey(v.X.Type()) + "." + structOf(v.X.Type()).Field(v.Field).Name()
	}
	return ""
}

func tkey(t types.Type) string {
	if n := named(t); n != "" {
		return n
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().String()
}

// callees resolves a call to the functions it may reach. Interface and
// function-value calls resolve, by type, to every candidate of the program's
// library packages.
type callGraph struct {
	c     *Ctx
	fns   []*ssa.Function
	sigs  map[string][]*ssa.Function // address-taken functions by signature
	memo  map[ssa.CallInstruction][]*ssa.Function
	edges map[*ssa.Function][]*ssa.Function
}

func newCallGraph(c *Ctx) *callGraph {
	g := &callGraph{c: c, fns: c.libFuncs(), sigs: map[string][]*ssa.Function{}, memo: map[ssa.CallInstruction][]*ssa.Function{}, edges: map[*ssa.Function][]*ssa.Function{}}
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && (*op) != callee {
						k := sigKey(fn.Signature)
						g.sigs[k] = append(g.sigs[k], fn)
					}
				}
			}
		}
	}
	return g
}

func sigKey(s *types.Signature) string {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()).String()
}

func unwrap(f *ssa.Function) *ssa.Function { return f }

func (g *callGraph) callees(ci ssa.CallInstruction) []*ssa.Function {
	if r, ok := g.memo[ci]; ok {
		return r
	}
	var out []*ssa.Function
	com := ci.Common()
	switch {
	case com.IsInvoke():
		for _, path := range libPkgs {
			pk := g.c.P.Pkgs[path]
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					it, _ := com.Value.Type().Underlying().(*types.Interface)
					if it == nil || !types.Implements(t, it) {
						continue
					}
					sel := types.NewMethodSet(t).Lookup(com.Method.Pkg(), com.Method.Name())
					if sel == nil {
						continue
					}
					if fo, ok := sel.Obj().(*types.Func); ok {
						if fn := g.c.P.SSA.FuncValue(fo); fn != nil && len(fn.Blocks) > 0 {
							out = append(out, fn)
						}
					}
				}
			}
		}
	case com.StaticCallee() != nil:
		out = append(out, com.StaticCallee())
	default:
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			out = append(out, g.sigs[sigKey(com.Signature())]...)
			// A function value of unknown origin may also be a closure.
		}
	}
	seen := map[*ssa.Function]bool{}
	var uniq []*ssa.Function
	for _, f := range out {
		// method wrappers and bound methods: follow to the wrapped method
		if f.Synthetic != "" && f.Object() != nil {
			if fo, ok := f.Object().(*types.Func); ok {
				if fn := g.c.P.SSA.FuncValue(fo); fn != nil {
					f = fn
				}
			}
		}
		if !seen[f] {
			seen[f] = true
			uniq = append(uniq, f)
		}
	}
	g.memo[ci] = uniq
	return uniq
}

func (g *callGraph) succs(f *ssa.Function) []*ssa.Function {
	if r, ok := g.edges[f]; ok {
		return r
	}
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, g.callees(ci)...)
			}
		}
	}
	out = append(out, f.AnonFuncs...)
	g.edges[f] = out
	return out
}

func (g *callGraph) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	push := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			st = append(st, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range g.succs(f) {
			push(s)
		}
	}
	return seen
}

// exported reports whether a user of the packages can call f directly, or
// through an exported interface value.
func (c *Ctx) exportedEntry(f *ssa.Function) bool {
	o, _ := f.Object().(*types.Func)
	return o != nil && o.Exported() && f.Parent() == nil
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if k.Value == nil {
		return true
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(k.Value)
	case constant.String:
		return constant.StringVal(k.Value) == ""
	default:
		return constant.Sign(k.Value) == 0
	}
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// stripConv looks through conversions that preserve the value.
func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func isLoad(v ssa.Value) (ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if ok && u.Op == token.MUL {
		return u.X, true
	}
	return nil, false
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var _ = fmt.Sprint

// isNamed reports whether t is the named type pkg.name.
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}
