package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", "proof", checkImmutable)
	register("P15", "proof", checkNoHiddenState)
}

// A flow is a flow-insensitive, field-based points-into analysis: which values
// may refer to memory that belongs to one of the sources.
type flow struct {
	c     *Ctx
	g     *callGraph
	fns   []*ssa.Function
	val   map[ssa.Value]string // tainted value -> why
	cell  map[string]string    // tainted memory cell -> why
	chg   bool
	seedV func(v ssa.Value) string         // sources among values
	seedC func(cell string) string         // sources among memory cells
	fresh func(ssa.Instruction) bool       // instructions not to taint
	ret   map[*ssa.Function]map[int]string // tainted results
	taken map[string]bool                  // cells whose address escapes, by type
}

// refType reports whether values of t can refer to memory.
func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

// cells names the memory cells an address may denote.
func (fl *flow) cells(a ssa.Value) []string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return []string{"F:" + fieldKey(x), "D:" + elemKey(a.Type())}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			var out []string
			for _, k := range fl.cells(x.X) {
				if !strings.HasPrefix(k, "D:") {
					out = append(out, k+"[]")
				}
			}
			return append(out, "D:"+elemKey(a.Type()))
		}
		return []string{"E:" + elemKey(a.Type()), "D:" + elemKey(a.Type())}
	case *ssa.Alloc:
		return []string{fmt.Sprintf("A:%p", x), "D:" + elemKey(a.Type())}
	case *ssa.Global:
		return []string{"G:" + x.RelString(nil), "D:" + elemKey(a.Type())}
	}
	return []string{"D:" + elemKey(a.Type()), "*:" + elemKey(a.Type())}
}

func elemKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.TypeString(p.Elem(), nil)
	}
	return types.TypeString(t, nil)
}

func (fl *flow) taintV(v ssa.Value, why string) {
	if why == "" || v == nil || !refType(v.Type()) {
		return
	}
	if _, ok := fl.val[v]; !ok {
		fl.val[v] = why
		fl.chg = true
	}
}

func (fl *flow) taintC(k, why string) {
	if why == "" {
		return
	}
	if _, ok := fl.cell[k]; !ok {
		fl.cell[k] = why
		fl.chg = true
	}
}

func (fl *flow) v(x ssa.Value) string {
	if w, ok := fl.val[x]; ok {
		return w
	}
	if w := fl.seedV(x); w != "" {
		fl.val[x] = w
		return w
	}
	return ""
}

// readCell: what a load through address a may yield.
func (fl *flow) readCell(a ssa.Value) string {
	ks := fl.cells(a)
	for _, k := range ks {
		if w := fl.cell[k]; w != "" && !strings.HasPrefix(k, "D:") {
			return w
		}
		if w := fl.seedC(k); w != "" {
			return w
		}
	}
	// Loads through arbitrary pointers may see any cell of that type; loads
	// of named cells may see what was stored through arbitrary pointers.
	if strings.HasPrefix(ks[len(ks)-1], "*:") {
		return fl.cell["D:"+elemKey(a.Type())]
	}
	return fl.cell["*:"+elemKey(a.Type())]
}

func (fl *flow) writeCell(a ssa.Value, why string) {
	for _, k := range fl.cells(a) {
		fl.taintC(k, why)
	}
}

func (fl *flow) run() {
	if fl.ret == nil {
		fl.ret = map[*ssa.Function]map[int]string{}
	}
	for fl.chg = true; fl.chg; {
		fl.chg = false
		for _, f := range fl.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fl.fresh != nil && fl.fresh(in) {
						continue
					}
					fl.step(f, in)
				}
			}
		}
	}
}

func (fl *flow) step(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			fl.taintV(x, fl.v(e))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w := fl.readCell(x.X); w != "" {
				fl.taintV(x, w)
			}
			if refType(x.Type()) {
				// a reference read out of tainted memory is part of it
				fl.taintV(x, fl.v(x.X))
			}
		}
	case *ssa.Slice:
		fl.taintV(x, fl.v(x.X))
	case *ssa.FieldAddr:
		fl.taintV(x, fl.v(x.X))
	case *ssa.IndexAddr:
		fl.taintV(x, fl.v(x.X))
	case *ssa.Field:
		fl.taintV(x, fl.v(x.X))
		if w := fl.cell["F:"+fieldKey(x)]; w != "" {
			fl.taintV(x, w)
		} else if w := fl.seedC("F:" + fieldKey(x)); w != "" {
			fl.taintV(x, w)
		}
	case *ssa.Index:
		fl.taintV(x, fl.v(x.X))
	case *ssa.Lookup:
		fl.taintV(x, fl.v(x.X))
		fl.taintV(x, fl.cell["M:"+types.TypeString(x.X.Type().Underlying(), nil)])
	case *ssa.Extract:
		fl.taintV(x, fl.v(x.Tuple))
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, cal := range fl.g.callees(call) {
				fl.taintV(x, fl.ret[cal][x.Index])
			}
		}
	case *ssa.ChangeType:
		fl.taintV(x, fl.v(x.X))
	case *ssa.ChangeInterface:
		fl.taintV(x, fl.v(x.X))
	case *ssa.MakeInterface:
		fl.taintV(x, fl.v(x.X))
	case *ssa.TypeAssert:
		fl.taintV(x, fl.v(x.X))
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); !ok {
			// string<->[]byte copies; pointers only via unsafe
			fl.taintV(x, fl.v(x.X))
		}
	case *ssa.SliceToArrayPointer:
		fl.taintV(x, fl.v(x.X))
	case *ssa.MultiConvert:
		fl.taintV(x, fl.v(x.X))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			fl.taintV(fn.FreeVars[i], fl.v(b))
		}
	case *ssa.Store:
		if w := fl.v(x.Val); w != "" {
			fl.writeCell(x.Addr, w)
		}
	case *ssa.MapUpdate:
		k := "M:" + types.TypeString(x.Map.Type().Underlying(), nil)
		fl.taintC(k, fl.v(x.Value))
		fl.taintC(k, fl.v(x.Key))
	case *ssa.Range:
		fl.taintV(x, fl.v(x.X))
	case *ssa.Next:
		fl.taintV(x, fl.v(x.Iter))
	case *ssa.Return:
		for i, r := range x.Results {
			if w := fl.v(r); w != "" {
				if fl.ret[f] == nil {
					fl.ret[f] = map[int]string{}
				}
				if fl.ret[f][i] == "" {
					fl.ret[f][i] = w
					fl.chg = true
				}
			}
		}
	case ssa.CallInstruction:
		com := x.Common()
		if bi, ok := com.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" {
				call := x.Value()
				fl.taintV(call, fl.v(com.Args[0]))
				if len(com.Args) > 1 && elemRef(com.Args[1].Type()) {
					// elements that are references themselves
					if w := fl.cell["E:"+elemKeyOfSlice(com.Args[1].Type())]; w != "" {
						fl.taintC("E:"+elemKeyOfSlice(com.Args[0].Type()), w)
					}
				}
			}
			return
		}
		for _, cal := range fl.g.callees(x) {
			args := com.Args
			if com.IsInvoke() {
				args = append([]ssa.Value{com.Value}, com.Args...)
			}
			for i, a := range args {
				if i < len(cal.Params) {
					fl.taintV(cal.Params[i], fl.v(a))
				}
			}
			if v := x.Value(); v != nil && cal.Signature.Results().Len() == 1 {
				fl.taintV(v, fl.ret[cal][0])
			}
			if len(cal.Blocks) == 0 || !isLib(fnPkg(cal)) {
				// external: its results may refer to its arguments
				if v := x.Value(); v != nil {
					for _, a := range args {
						if w := fl.v(a); w != "" && !isErrResult(v.Type()) {
							fl.taintV(v, w)
						}
					}
				}
			}
		}
	}
}

func isErrResult(t types.Type) bool { return isErr(t) }

func elemRef(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && refType(s.Elem())
}

func elemKeyOfSlice(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return types.TypeString(s.Elem(), nil)
	}
	return ""
}

// readOnlyCallee reports whether an external function only reads the memory
// its arguments refer to.
func readOnlyCallee(f *ssa.Function) bool {
	p := fnPkg(f)
	n := f.Name()
	switch p {
	case "fmt", "errors", "strings", "strconv", "unicode/utf8", "unicode/utf16", "math", "math/bits", "unicode", "cmp":
		return !strings.HasPrefix(n, "Append") && !strings.HasPrefix(n, "Encode")
	case "encoding/binary":
		return !strings.HasPrefix(n, "Put") && !strings.HasPrefix(n, "Append") && n != "Read" && n != "Encode"
	case "bytes":
		switch n {
		case "Equal", "Compare", "HasPrefix", "HasSuffix", "Index", "IndexByte", "Contains", "NewReader", "Count", "Clone":
			return true
		}
	case "slices":
		return strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "Contains") || strings.HasPrefix(n, "BinarySearch") || strings.HasPrefix(n, "Equal") || strings.HasPrefix(n, "Max") || strings.HasPrefix(n, "Min") || strings.HasPrefix(n, "Clone")
	case "sort":
		return strings.HasPrefix(n, "Search") || strings.HasSuffix(n, "AreSorted") || strings.HasSuffix(n, "IsSorted")
	}
	return false
}

// writes lists the instructions by which f may write through a tainted
// reference.
func (fl *flow) writes(f *ssa.Function, report func(in ssa.Instruction, why string)) (sites int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				sites++
				if w := fl.v(x.Addr); w != "" {
					report(in, w)
				}
			case *ssa.MapUpdate:
				sites++
				if w := fl.v(x.Map); w != "" {
					report(in, w)
				}
			case ssa.CallInstruction:
				com := x.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "append", "delete", "clear":
						sites++
						if w := fl.v(com.Args[0]); w != "" {
							report(in, w)
						}
					}
					continue
				}
				cals := fl.g.callees(x)
				if len(cals) == 0 && !com.IsInvoke() {
					// a function value: user code gets only what the API hands it
				}
				for _, cal := range cals {
					if len(cal.Blocks) > 0 && isLib(fnPkg(cal)) {
						continue
					}
					for _, a := range com.Args {
						if w := fl.v(a); w != "" {
							sites++
							if !readOnlyCallee(cal) {
								report(in, w+", passed to "+cal.RelString(nil))
							}
						}
					}
				}
			}
		}
	}
	return
}

// checkImmutable: nothing but Parse writes a Font, and nothing at all writes
// the bytes it was parsed from.
func checkImmutable(c *Ctx) {
	r := c.Res
	r.Rule = "no instruction in a function reachable from the API other than through font parsing writes a Font or memory a Font refers to; no instruction anywhere writes the byte slice given to Parse"
	r.Explanation = "flow-insensitive, field-based alias taint over the SSA form of all library functions (sources: the parse entry points' byte slices; Font fields), with call-graph reachability separating parse-only functions"
	fontT := pkgTT + ".Font"
	g := newCallGraph(c)
	var parseRoots, otherRoots []*ssa.Function
	for _, f := range g.fns {
		r.Fn(fname(f))
		if !c.exportedEntry(f) {
			continue
		}
		res := f.Signature.Results()
		isParse := false
		if f.Signature.Recv() == nil && f.Signature.Params().Len() >= 1 && types.TypeString(f.Signature.Params().At(0).Type().Underlying(), nil) == "[]byte" {
			for i := 0; i < res.Len(); i++ {
				if named(res.At(i).Type()) == fontT {
					isParse = true
				}
			}
		}
		if isParse {
			parseRoots = append(parseRoots, f)
		} else {
			otherRoots = append(otherRoots, f)
		}
	}
	if len(parseRoots) < 2 {
		r.Bad("anchor", "?", "expected two exported parse entry points (func([]byte) (*Font, error)), found %d", len(parseRoots))
	}
	other := g.reach(otherRoots)
	// (1) caller's bytes.
	src := map[ssa.Value]bool{}
	for _, f := range parseRoots {
		src[f.Params[0]] = true
	}
	fl := &flow{c: c, g: g, fns: g.fns, val: map[ssa.Value]string{}, cell: map[string]string{},
		seedV: func(v ssa.Value) string {
			if src[v] {
				return "the caller's font data"
			}
			return ""
		}, seedC: func(string) string { return "" }}
	fl.run()
	for _, f := range g.fns {
		f := f
		bad := false
		n := fl.writes(f, func(in ssa.Instruction, why string) {
			bad = true
			r.Bad("writes-input:"+fname(f), c.posOf(in), "%s may write to %s", fname(f), why)
		})
		r.Count("write_sites", n)
		if !bad && n > 0 {
			r.OK("%s: none of %d writes reaches the caller's bytes", fname(f), n)
		}
	}
	r.Count("values_aliasing_input", len(fl.val))
	if len(fl.val) < 30 {
		r.Bad("vacuous", "?", "only %d values alias the input; the taint sources are wrong", len(fl.val))
	}
	// (2) Font memory outside parsing.
	fl2 := &flow{c: c, g: g, fns: nil, val: map[ssa.Value]string{}, cell: map[string]string{},
		seedV: func(v ssa.Value) string {
			if _, ok := v.(*ssa.Const); ok {
				return ""
			}
			if p, ok := v.Type().Underlying().(*types.Pointer); ok && named(p) == fontT {
				return "a Font"
			}
			return ""
		},
		seedC: func(k string) string {
			if strings.HasPrefix(k, "F:"+fontT+".") {
				return "memory of a Font"
			}
			return ""
		}}
	for _, f := range g.fns {
		if other[f] {
			fl2.fns = append(fl2.fns, f)
		}
	}
	fl2.run()
	nf := 0
	for _, f := range fl2.fns {
		f := f
		bad := false
		n := fl2.writes(f, func(in ssa.Instruction, why string) {
			// A *Font held in some other object may be replaced.
			bad = true
			r.Bad("writes-font:"+fname(f), c.posOf(in), "%s may write to %s after parsing", fname(f), why)
		})
		nf++
		if !bad && n > 0 {
			r.OK("%s: none of %d writes reaches a Font", fname(f), n)
		}
	}
	r.Count("functions_reachable_without_parsing", nf)
	if nf < 60 {
		r.Bad("vacuous", "?", "only %d functions reachable from the non-parsing API", nf)
	}
	r.Assumptions = []string{"no use of unsafe (checked by P15)", "code outside the three packages reaches Font memory only through their API"}
}

var hiddenStatePkgs = map[string]string{
	"time": "the clock", "math/rand": "randomness", "math/rand/v2": "randomness", "crypto/rand": "randomness",
	"os": "the environment", "runtime": "the runtime", "unsafe": "unsafe memory", "syscall": "the system", "net": "the network",
	"io/ioutil": "the file system", "os/exec": "other processes", "runtime/debug": "the runtime", "maphash": "randomness", "hash/maphash": "randomness",
}

// checkNoHiddenState: results depend on nothing but arguments and receivers.
func checkNoHiddenState(c *Ctx) {
	r := c.Res
	r.Rule = "outside package initialisation no library function writes package-level memory; none reads clocks, randomness, environment or unsafe memory; no goroutines, channels or order-sensitive map iteration"
	r.Explanation = "effect analysis over the SSA form of every library function: alias taint from package-level variables to writes, plus forbidden-source and map-iteration rules"
	g := newCallGraph(c)
	for _, path := range libPkgs {
		pk := c.P.Pkgs[path]
		if pk == nil {
			r.Bad("anchor", "?", "package %s not found", path)
			continue
		}
		for _, im := range pk.Types.Imports() {
			if why, bad := hiddenStatePkgs[im.Path()]; bad {
				r.Bad("import:"+path+":"+im.Path(), path, "package %s can depend on %s", path, why)
			} else {
				r.OK("%s imports %s", path, im.Path())
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range g.fns {
		if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
			continue
		}
		fns = append(fns, f)
	}
	nGlob := 0
	fl := &flow{c: c, g: g, fns: fns, val: map[ssa.Value]string{}, cell: map[string]string{},
		seedV: func(v ssa.Value) string {
			if gl, ok := v.(*ssa.Global); ok {
				return "package variable " + gl.RelString(nil)
			}
			return ""
		}, seedC: func(string) string { return "" }}
	fl.run()
	for _, f := range fns {
		f := f
		r.Fn(fname(f))
		bad := false
		n := fl.writes(f, func(in ssa.Instruction, why string) {
			bad = true
			r.Bad("writes-global:"+fname(f), c.posOf(in), "%s may write to %s", fname(f), why)
		})
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && gl.Pkg != nil && isLib(gl.Pkg.Pkg.Path()) {
						nGlob++
					}
				}
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					bad = true
					r.Bad("concurrency:"+fname(f), c.posOf(in), "%s uses goroutines or channels: results may depend on scheduling", fname(f))
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						bad = true
						r.Bad("unsafe:"+fname(f), c.posOf(in), "%s uses unsafe.Pointer", fname(f))
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						if why := orderSensitive(x); why != "" {
							bad = true
							r.Bad("map-order:"+fname(f), c.posOf(in), "%s iterates over a map and %s", fname(f), why)
						} else {
							r.OK("%s: map iteration in %s is order-insensitive", c.posOf(in), fname(f))
						}
					}
				}
			}
		}
		if !bad {
			r.OK("%s: %d writes, none to package-level memory; no hidden sources", fname(f), n)
		}
	}
	r.Count("global_uses", nGlob)
	r.Count("functions", len(fns))
	if len(fns) < 100 || nGlob < 3 {
		r.Bad("vacuous", "?", "only %d functions, %d uses of package variables", len(fns), nGlob)
	}
}

// orderSensitive: the iteration may only delete the visited keys.
func orderSensitive(x *ssa.Range) string {
	for _, ref := range *x.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			return "uses the iterator in an unexpected way"
		}
		for _, r2 := range *nx.Referrers() {
			ex, ok := r2.(*ssa.Extract)
			if !ok {
				return "uses the elements in an unexpected way"
			}
			if ex.Index == 0 {
				continue // the loop condition
			}
			for _, r3 := range *ex.Referrers() {
				if ci, ok := r3.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						continue
					}
				}
				if _, ok := r3.(*ssa.DebugRef); ok {
					continue
				}
				return "uses the elements for something other than deleting them"
			}
		}
	}
	return ""
}
