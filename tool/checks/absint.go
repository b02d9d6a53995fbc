package checks

import (
	"embed"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"ftverif/absint"
	"ftverif/load"
)

//go:embed drv
var drivers embed.FS

// proof describes a driver whose every run-time check must be discharged.
type proof struct {
	pkg    string
	driver string
	own    func(o *absint.Obligation) bool // which obligations count; nil: all
	setup  func(*absint.Engine)
	which  string // the value of the driver's constant verifCase, if not 0
}

// name tells the proof apart from others of the same check.
func (pr proof) name() string {
	d := strings.TrimSuffix(pr.driver, ".go.txt")
	if pr.which != "" {
		d += " case " + pr.which
	}
	return d
}

// cases are the proofs by a driver with verifCase set to 0 to n-1.
func (pr proof) cases(n int) (prs []proof) {
	for i := 0; i < n; i++ {
		pr.which = fmt.Sprint(i)
		prs = append(prs, pr)
	}
	return prs
}

// assertions selects what the driver itself demands.
func assertions(o *absint.Obligation) bool { return o.Kind == "assertion" }

// spanAccess selects assertions and accesses to slices or arrays of spans.
func spanAccess(o *absint.Obligation) bool {
	if assertions(o) {
		return true
	}
	var t types.Type
	switch in := o.In.(type) {
	case *ssa.IndexAddr:
		t = in.X.Type()
	case *ssa.Slice:
		t = in.X.Type()
	default:
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		t = u.Elem()
	case *types.Array:
		t = u.Elem()
	}
	return isNamed(t, pkgRaster, "Span")
}

// Drive connects the functions of a driver that stand in for others: a comment
//
//	// verif:replaces NAME
//
// in front of a function gives its calls, named as package ssa does, to it, and
//
//	// verif:recursion NAME
//
// those made while NAME runs.
func Drive(e *absint.Engine, p *load.Program, pkg string) error {
	e.Replace = map[*ssa.Function]*ssa.Function{}
	e.Recursion = map[*ssa.Function]*ssa.Function{}
	var all map[string]*ssa.Function
	for _, f := range p.Pkgs[pkg].Files {
		if !strings.Contains(p.Pos(f.Package), "zz_verif") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				into := e.Replace
				name, ok := strings.CutPrefix(c.Text, "// verif:replaces ")
				if !ok {
					into = e.Recursion
					name, ok = strings.CutPrefix(c.Text, "// verif:recursion ")
				}
				if !ok {
					continue
				}
				e.Congruent = true
				if all == nil {
					all = map[string]*ssa.Function{}
					for fn := range ssautil.AllFunctions(p.SSA) {
						all[fn.String()] = fn
					}
				}
				old := all[name]
				if old == nil {
					return fmt.Errorf("%s is not a function of the program", name)
				}
				by := p.Func(pkg, fd.Name.Name)
				want := sigParams(old.Signature)
				have := sigParams(by.Signature)
				if len(have) != len(want) {
					return fmt.Errorf("%s has other parameters than its stand-in", name)
				}
				for i := range have {
					if !types.Identical(have[i].Underlying(), want[i].Underlying()) {
						return fmt.Errorf("%s has other parameters than its stand-in", name)
					}
				}
				into[old] = by
			}
		}
	}
	return nil
}

// sigParams lists the types of a function's parameters, receiver first.
func sigParams(s *types.Signature) (ts []types.Type) {
	if r := s.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

// run reports whether the analysis came to an end.
func (c *Ctx) run(e *absint.Engine, fn *ssa.Function, name string) (ok bool) {
	defer func() {
		if os.Getenv("FT_PANIC") != "" {
			return
		}
		if r := recover(); r != nil {
			c.Res.Undecide("the analysis of %s gave up: %v", name, r)
			e.Abandon()
		}
	}()
	e.Run(fn)
	return true
}

// proveAny takes the first of several ways to conduct a proof that succeeds,
// and otherwise what the first one found. The later ones are more precise and
// take longer.
func (c *Ctx) proveAny(prs ...proof) {
	base := c.Res
	var first *Result
	for i, pr := range prs {
		r := *base
		r.Extra = map[string]any{}
		for k, v := range base.Extra {
			r.Extra[k] = v
		}
		c.Res = &r
		c.prove(pr)
		if i == 0 {
			first = &r
		}
		if len(r.Violations) == 0 && r.Undecided == nil {
			first = &r
			break
		}
	}
	*base = *first
	c.Res = base
}

// proveAll conducts proofs side by side.
func (c *Ctx) proveAll(prs ...proof) {
	results := make([]*Result, len(prs))
	slots := make(chan bool, 4)
	var wg sync.WaitGroup
	for i, pr := range prs {
		results[i] = &Result{Level: c.Res.Level, Extra: map[string]any{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			d := *c
			d.Res = results[i]
			defer func() {
				if os.Getenv("FT_PANIC") != "" {
					return
				}
				if r := recover(); r != nil {
					d.Res.Undecide("%s: the analysis gave up: %v", pr.name(), r)
				}
			}()
			d.prove(pr)
		}()
	}
	wg.Wait()
	for _, r := range results {
		c.Res.add(r)
	}
}

func (c *Ctx) prove(pr proof) *absint.Engine {
	r := c.Res
	src, err := drivers.ReadFile("drv/" + pr.driver)
	if err != nil {
		panic(err)
	}
	if pr.which != "" {
		src = []byte(strings.Replace(string(src), "const verifCase = 0\n", "const verifCase = "+pr.which+"\n", 1))
	}
	p, err := load.LoadWith(c.P.Repo, "", map[string]string{pr.pkg: string(src)})
	if err != nil {
		r.Undecide("the driver %s does not compile against the package: %v", pr.driver, err)
		return nil
	}
	e := absint.New(p.SSA, p.Fset)
	e.Deadline = c.Deadline
	if pr.setup != nil {
		pr.setup(e)
	}
	if err := Drive(e, p, pr.pkg); err != nil {
		r.Undecide("%v", err)
		return nil
	}
	clear := true // nothing was skipped that the property depends on
	done := c.run(e, p.Func(pr.pkg, "verifEntry"), pr.name())
	for n, k := range e.Notes() {
		if strings.HasPrefix(n, "undecided: ") || strings.HasPrefix(n, "call of "+load.RepoPath) || strings.HasPrefix(n, "call of ("+load.RepoPath) || strings.HasPrefix(n, "call of (*"+load.RepoPath) {
			r.Undecide("%s: %s (%d times)", pr.name(), n, k)
			done, clear = false, false
		}
	}
	for _, o := range e.Obligations() {
		if pr.own != nil && !pr.own(o) {
			continue
		}
		pos := p.Pos(o.In.Pos())
		r.Fn(fname(o.Fn))
		r.Count("obligations: "+o.Kind, 1)
		if o.OK && done {
			r.OK("%s: %s cannot happen in %s", pos, o.Kind, fname(o.Fn))
		} else if !o.OK && clear {
			why := o.Why
			if i := strings.IndexByte(why, '\n'); i >= 0 {
				why = why[:i]
			}
			if o.Lost {
				r.Undecide("%s: %s: %s in %s, but the analysis lost track of what it depends on", pr.name(), pos, o.Kind, fname(o.Fn))
				continue
			}
			if o.Kind == "assertion" {
				msg := "does not follow from the code: " + driverLine(src, p.Fset.Position(o.In.Pos()).Line)
				key := msg
				if o.Hist != "" {
					msg += "; on the path " + o.Hist
				}
				r.Bad(key, pos, "%s (%s)", msg, why)
				continue
			}
			r.Bad(fmt.Sprintf("%s %s %s", o.Kind, fname(o.Fn), o.In), pos, "%s is possible in %s (%s); reached through %s", o.Kind, fname(o.Fn), why, o.Path)
		}
	}
	if !done {
		return nil
	}
	reached := false
	for f, n := range e.Reached() {
		if f.Name() == "verifReached" {
			reached = true
		}
		if isLib(fnPkg(f)) && !strings.HasPrefix(f.Name(), "verif") {
			r.Fn(fname(f))
			r.Count("basic blocks reached", n[0])
			r.Count("basic blocks", n[1])
		}
	}
	if !reached {
		r.Bad("vacuous "+pr.name(), "?", "no call the property speaks of can complete: the analysis finds no path to the end of driver %s", pr.name())
	}
	var notes []string
	for n, k := range e.Notes() {
		notes = append(notes, fmt.Sprintf("%s (%d times)", n, k))
	}
	sort.Strings(notes)
	d := pr.name()
	r.Extra["treated_without_precision in "+d] = notes
	r.Extra["analysis of "+d] = e.Stats()
	r.Extra["driver "+d] = string(src)
	if len(r.Assumptions) == 0 {
		r.Assumptions = append(r.Assumptions,
			"slices and strings hold fewer than 2^31 elements",
			"int is 64 bits wide and arithmetic on values derived from lengths and 32 bit data does not overflow it",
			"memory allocation succeeds")
		r.Trusted = append(r.Trusted, "models of package errors, fmt and math (return arbitrary values)")
	}
	return e
}

// driverLine quotes a line of a driver.
func driverLine(src []byte, n int) string {
	ls := strings.Split(string(src), "\n")
	if n < 1 || n > len(ls) {
		return "?"
	}
	return strings.TrimSpace(ls[n-1])
}

const absintText = "Abstract interpretation of the SSA form from the driver, all library calls followed: " +
	"linear equalities and inequalities over integers, slice lengths and offsets (joined by convex hulls found with an exact simplex, widened at loop heads), " +
	"points-to sets, allocation-site objects and array summaries. Every index, slice, make, division, shift count, nil dereference, " +
	"type assertion and reachable panic is an obligation that must be entailed in every calling context."

func init() {
	register("P01", "proof", func(c *Ctx) {
		c.Res.Rule = "no run-time check can fail below Parse, for every byte slice"
		c.Res.Explanation = absintText
		c.prove(proof{pkg: pkgTT, driver: "p01.go.txt"})
	})
	register("P02", "proof", func(c *Ctx) {
		c.Res.Rule = "no run-time check can fail below the query methods of a font that Parse returned without error, for every byte slice and argument"
		c.Res.Explanation = absintText
		c.proveAny(proof{pkg: pkgTT, driver: "p02.go.txt"}, proof{pkg: pkgTT, driver: "p02b.go.txt", setup: flatPaths})
	})
}

func init() {
	register("P09", "proof", func(c *Ctx) {
		c.Res.Rule = "no run-time check can fail in the painters, and every byte written to an image's pixels belongs to a pixel of the image's bounds and of the span being painted, for every image geometry and every batch of spans"
		c.Res.Explanation = absintText + " The driver paints two arbitrary spans; since Paint's loop is analysed per span and its invariant is inductive, this covers batches of any length as far as the loop treats spans alike."
		c.prove(proof{pkg: pkgRaster, driver: "p09.go.txt", setup: func(e *absint.Engine) {
			e.Unroll = func(f *ssa.Function) bool { return f.Name() == "Paint" }
			e.OnWrite = func(st *absint.State, in ssa.Instruction, obj absint.ObjID, lo, hi absint.Lin) {
				if !strings.HasPrefix(e.ObjName(obj), "[]byte@zz_verif") {
					return
				}
				ok := st.Impossible() || insideSpan(st, lo, hi, "s") || insideSpan(st, lo, hi, "t")
				e.Oblige(st, in, "write outside the span or image", ok, func() string {
					return "bytes " + e.Str(lo) + " to " + e.Str(hi) + "\n" + e.Dump(st)
				})
			}
		}})
	})
}

// insideSpan reports whether bytes [lo, hi) of the driver's pixels belong to
// pixels of the span argument and of the image.
func insideSpan(st *absint.State, lo, hi absint.Lin, span string) bool {
	bpp := int64(1)
	if w, ok := st.Arg("which"); ok && st.Entails(w.Plus(-4)) {
		bpp = 4
	}
	good := true
	get := func(n string, path ...int) absint.Lin {
		l, ok := st.Arg(n, path...)
		good = good && ok
		return l
	}
	ge := func(a, b absint.Lin, k int64) bool { // a >= b+k
		d, ok := a.Sub(b)
		return ok && st.Entails(d.Plus(-k))
	}
	x0, y0, x1, y1, stride := get("x0"), get("y0"), get("x1"), get("y1"), get("stride")
	sy, sx0, sx1 := get(span, 0), get(span, 1), get(span, 2)
	if !good || !ge(sy, y0, 0) || !ge(y1, sy, 1) {
		return false
	}
	dy, ok1 := sy.Sub(y0)
	row, ok2 := st.Mul(dy, stride)
	if !ok1 || !ok2 {
		return false
	}
	// byte = row + bpp*(x - x0) + plane, x within [x0, x1) and [sx0, sx1)
	bx, ok := x0.Scale(bpp)
	if !ok {
		return false
	}
	bx, ok = bx.Sub(row)
	if !ok {
		return false
	}
	l, ok1 := lo.Add(bx) // bpp*x + plane
	h, ok2 := hi.Add(bx)
	if !ok1 || !ok2 {
		return false
	}
	sc := func(a absint.Lin) absint.Lin {
		r, ok := a.Scale(bpp)
		good = good && ok
		return r
	}
	return ge(l, sc(x0), 0) && ge(l, sc(sx0), 0) && ge(sc(x1), h, 0) && ge(sc(sx1), h, 0) && good
}

const ghostText = " The driver's painter checks one arbitrary slot of the span buffer, which the analysis tracks exactly (a ghost cell at a symbolic index), so what holds for it holds for every slot."

func paths(e *absint.Engine) {
	e.Paths = func(stack []*absint.Frame) bool { return absint.Below(stack, "verifPaths") }
}

func init() {
	register("P07", "proof", func(c *Ctx) {
		c.Res.Rule = "every span handed to a painter lies inside the bounds, has positive width and an alpha in 1..0xffff, whatever cells were accumulated"
		c.Res.Explanation = absintText + ghostText
		c.prove(proof{pkg: pkgRaster, driver: "p07.go.txt", own: spanAccess})
		c.Res.Assumptions = append(c.Res.Assumptions, "Dx, Dy and the width are within 2^40")
	})
	register("P08", "proof", func(c *Ctx) {
		c.Res.Rule = "done is true for exactly one call of the painter, the last; every span written to the buffer is handed over exactly once before it is overwritten; wrapping painters forward done unchanged and the monochrome painter starts afresh"
		c.Res.Explanation = absintText + ghostText
		c.prove(proof{pkg: pkgRaster, driver: "p08raster.go.txt", own: spanAccess})
		c.prove(proof{pkg: pkgRaster, driver: "p08wrap.go.txt", own: assertions})
		c.prove(proof{pkg: pkgRaster, driver: "p08mono.go.txt", own: assertions, setup: paths})
	})
	register("P10", "proof", func(c *Ctx) {
		c.Res.Rule = "gamma correction forwards each span with its position unchanged and alpha 0 and 0xffff kept; the monochrome painter covers a pixel exactly as often as spans with alpha at least 0x8000 cover it, with opaque spans"
		c.Res.Explanation = absintText + ghostText + " The monochrome painter is analysed path by path for every arrangement of two spans into batches and an arbitrary pixel."
		c.prove(proof{pkg: pkgRaster, driver: "p10gamma.go.txt"})
		c.prove(proof{pkg: pkgRaster, driver: "p10mono.go.txt", setup: paths})
		c.Res.Assumptions = append(c.Res.Assumptions, "span alphas are at most 0xffff and spans are not empty, as Rasterize guarantees (P07)")
	})
	register("P11", "proof", func(c *Ctx) {
		c.Res.Rule = "every setter stores its argument and changes no other setting, leaves the scale equal to size*dpi*64/72 and the rasterizer's bounds fitting the font at that scale, and leaves no glyph cache entry valid if the font, scale or hinting changed"
		c.Res.Explanation = absintText + ghostText + " Font.Bounds is an uninterpreted function of font and scale, Rasterizer.SetBounds is recorded; floating point expressions are compared as polynomials over the settings."
		c.prove(proof{pkg: load.RepoPath, driver: "p11.go.txt", own: assertions, setup: flatPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "floating point arithmetic is compared as if on reals", "the font's scaled bounds are within 2^30")
	})
}

func flatPaths(e *absint.Engine) {
	paths(e)
	e.Flat = true
}

func init() {
	register("P12", "proof", func(c *Ctx) {
		c.Res.Rule = "whatever was drawn before, a cache hit returns what a context or face with empty caches computes for the same arguments"
		c.Res.Explanation = absintText + ghostText + " GlyphBuf.Load is an uninterpreted function of its arguments, drawing calls are folded into an uninterpreted digest."
		c.prove(proof{pkg: load.RepoPath, driver: "p12ctx.go.txt", own: assertions, setup: paths})
		c.prove(proof{pkg: pkgTT, driver: "p12face.go.txt", own: assertions, setup: paths})
		c.prove(proof{pkg: pkgTT, driver: "p12index.go.txt", own: assertions, setup: paths})
		c.prove(proof{pkg: pkgTT, driver: "p12new.go.txt", own: assertions, setup: paths})
	})
}

func init() {
	register("P13", "proof", func(c *Ctx) {
		c.Res.Rule = "spans are painted into the glyph's strip of the mask image only, the strip starts at maxh times the cache slot and is cleared before it is painted, and the returned rectangle and mask point stay inside the strip"
		c.Res.Explanation = absintText + ghostText
		c.prove(proof{pkg: pkgTT, driver: "p13paint.go.txt", setup: func(e *absint.Engine) {
			e.Unroll = func(f *ssa.Function) bool { return f.Name() == "Paint" }
			e.OnWrite = func(st *absint.State, in ssa.Instruction, obj absint.ObjID, lo, hi absint.Lin) {
				if !strings.HasPrefix(e.ObjName(obj), "[]byte@zz_verif") {
					return
				}
				ok := st.Impossible() || insideStrip(st, lo, hi, "s") || insideStrip(st, lo, hi, "t")
				e.Oblige(st, in, "write outside the glyph's strip", ok, func() string {
					return "bytes " + e.Str(lo) + " to " + e.Str(hi) + "\n" + e.Dump(st)
				})
			}
		}})
		c.prove(proof{pkg: pkgTT, driver: "p13glyph.go.txt", own: assertions, setup: paths})
		c.prove(proof{pkg: pkgTT, driver: "p13new.go.txt", own: assertions, setup: paths})
		c.Res.Assumptions = append(c.Res.Assumptions, "the scaled bounds of fonts and glyphs are within 2^23, the glyph cache has at most 2^24 entries")
		c.Res.Trusted = append(c.Res.Trusted, "image.NewAlpha makes an image with the given bounds and a stride of their width")
	})
}

// insideStrip reports whether bytes [lo, hi) of the driver's pixels belong to
// the span argument, moved down by off, and to rows off to off+h of the image.
func insideStrip(st *absint.State, lo, hi absint.Lin, span string) bool {
	good := true
	get := func(n string, path ...int) absint.Lin {
		l, ok := st.Arg(n, path...)
		good = good && ok
		return l
	}
	ge := func(a, b absint.Lin, k int64) bool { // a >= b+k
		d, ok := a.Sub(b)
		return ok && st.Entails(d.Plus(-k))
	}
	w, h, off := get("w"), get("h"), get("off")
	sy, sx0, sx1 := get(span, 0), get(span, 1), get(span, 2)
	if !good || !st.Entails(sy) || !ge(h, sy, 1) {
		return false
	}
	y, ok := off.Add(sy)
	if !ok {
		return false
	}
	row, ok := st.Mul(y, w)
	if !ok {
		return false
	}
	l, ok1 := lo.Sub(row)
	r, ok2 := hi.Sub(row)
	return ok1 && ok2 && st.Entails(l) && ge(l, sx0, 0) && ge(w, r, 0) && ge(sx1, r, 0)
}

func iterPaths(e *absint.Engine) {
	paths(e)
	e.Iter = true
}

const textText = " Glyph loading, index and kerning lookups are uninterpreted functions of their arguments with assumed ranges; the driver follows the pen and the glyph in hand and checks every call made."

func init() {
	register("P20", "proof", func(c *Ctx) {
		c.Res.Rule = "GlyphAdvance, GlyphBounds and Glyph load the rune's glyph at the face's scale and hinting and report its advance and bounds unchanged; the outline is drawn at the dot to within the sub-pixel rounding; kerning is looked up in order at the same scale and rounded exactly when hinting is on"
		c.Res.Explanation = absintText + textText
		c.prove(proof{pkg: pkgTT, driver: "p20.go.txt", own: assertions, setup: iterPaths})
		c.prove(proof{pkg: load.RepoPath, driver: "p21.go.txt", own: assertions, setup: iterPaths})
		c.prove(proof{pkg: load.RepoPath, driver: "p21place.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "glyph bounds and the dot are within 2^24, kerning and advances within 2^20")
	})
	register("P21", "proof", func(c *Ctx) {
		c.Res.Rule = "DrawString composes exactly the intersection of the clip and each glyph's rectangle, with the mask aligned to it; each glyph is at the pen, which advances by kerning and advance width, and the final pen is returned"
		c.Res.Explanation = absintText + textText
		c.prove(proof{pkg: load.RepoPath, driver: "p21.go.txt", own: assertions, setup: iterPaths})
		c.prove(proof{pkg: load.RepoPath, driver: "p21place.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "the pen stays within 2^28, kerning and advances within 2^20, rectangles within 2^40")
		c.Res.Trusted = append(c.Res.Trusted, "draw.DrawMask draws inside the rectangle it is given")
	})
}

func init() {
	register("P25", "proof", func(c *Ctx) {
		c.Res.Rule = "every part of a path is stroked, to the adder given and by half the width given, with the capper and joiner given or, where these are nil, with functions that call roundCapper and roundJoiner with the same arguments; an empty path is not stroked and does not panic"
		c.Res.Explanation = absintText + " stroker.stroke is replaced by a function that asserts what it is given and calls the capper and joiner, which record what reaches them."
		c.prove(proof{pkg: pkgRaster, driver: "p25.go.txt", own: func(o *absint.Obligation) bool {
			return assertions(o) || strings.HasPrefix(o.Fn.Name(), "verif")
		}, setup: iterPaths})
		c.prove(proof{pkg: pkgRaster, driver: "p25empty.go.txt", setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "users of the package do not assign to RoundCapper and RoundJoiner")
	})
	register("P18", "proof", func(c *Ctx) {
		c.Res.Rule = "a path made by a start and up to three further commands of every kind, with arbitrary points, is read back by Rasterizer.AddPath (also after Path.Clear and Path.AddPath), Stroke, addPathReversed, Path.String, firstPoint and lastPoint as the commands and points it was made of, with no index outside the path and no panic"
		c.Res.Explanation = absintText + " All 85 shapes of such paths are followed separately, each with symbolic points; what receives the commands is replaced by functions that record them. Paths are copied by append, so that two paths sharing memory are not considered."
		c.prove(proof{pkg: pkgRaster, driver: "p18.go.txt", own: func(o *absint.Obligation) bool {
			return assertions(o) || !strings.HasPrefix(o.Fn.Name(), "verif")
		}, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "paths of at most four commands; the decoding loops keep no state but the position")
	})
	register("P26", "proof", func(c *Ctx) {
		c.Res.Rule = "every cap ends at pivot+n1 and every join at pivot+n1 on one side and pivot-n1 on the other, square caps with corners half the width beyond; the outline of a stroked curve starts once, meets every cap and join where the side before it ends, closes exactly, and does not depend on curves stroked before"
		c.Res.Explanation = absintText + " Vectors' lengths, curves and dot products are uninterpreted functions; the driver's capper, joiner and adder record where the two sides have got to and compare. Curves of one and two lines or quadratic segments are followed path by path, from an arbitrary state left by an earlier curve."
		c.prove(proof{pkg: pkgRaster, driver: "p26.go.txt", own: assertions, setup: iterPaths})
		c.prove(proof{pkg: pkgRaster, driver: "p26stroke.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "coordinates and normals within 2^24", "a quadratic piece (addNonCurvy2) ends at its end point and leaves a normal there", "curves of at most two segments; the stroker keeps only its last point, normal and other side between segments")
	})
	register("P24", "proof", func(c *Ctx) {
		c.Res.Rule = "an arbitrary character of the name Font.Name returns is printable ASCII: the character stored in the font's table if that is, and a question mark otherwise; a name has one character for each byte or pair of bytes stored"
		c.Res.Explanation = absintText + " Which record is the name's is arbitrary; the driver follows one arbitrary byte of the table and the character made of it, path by path."
		c.prove(proof{pkg: pkgTT, driver: "p24.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "a name that ends its table is not followed", "for the second byte of a character, the table's other bytes are zero")
	})
	register("P19", "proof", func(c *Ctx) {
		c.Res.Rule = "a face's scale, hinting, cache size and sub-pixel positions are those of its options where these are in their documented domain and the documented defaults otherwise, for nil options too"
		c.Res.Explanation = absintText + " Font.Bounds is an uninterpreted function; the driver states the effective value of each option and compares it with what the face uses, path by path."
		c.prove(proof{pkg: pkgTT, driver: "p19.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "floating point arithmetic is compared as if on reals", "at most 2^24 glyph cache entries; the sub-pixel options are varied together and against two settings of the others")
	})
}

func init() {
	register("P03", "proof", func(c *Ctx) {
		c.Res.Rule = "every run-time check (index, slice bounds, nil dereference, division, conversion) in GlyphBuf.Load, load, loadSimple, loadCompound, addPhantomsAndScale and hinter.init is implied by the conditions tested before it, for any glyph data, locations, metrics, device table, index, scale and hinting and any state of the buffer; with hinting the buffer keeps as many unhinted points and points in font units as points"
		c.Res.Explanation = absintText + " The component of a compound glyph is replaced by a function that adds any number of points and contours, whose assumptions are asserted where it is called and where load returns; hinter.run is replaced by a function that may fail, the font's metrics and scaling by arbitrary values."
		prs := proof{pkg: pkgTT, driver: "p03.go.txt"}.cases(2)
		prs = append(prs, proof{pkg: pkgTT, driver: "p03b.go.txt"}.cases(2)...)
		prs = append(prs, proof{pkg: pkgTT, driver: "p03c.go.txt"})
		c.proveAll(prs...)
		c.Res.Assumptions = append(c.Res.Assumptions, "hinter.run does not panic and does not change how many points a buffer has (its own accesses are P04)", "buffers of up to 2^24 points, components that add up to 2^20", "the metrics queries and Font.scale do not panic (P02)")
	})
	register("P16", "proof", func(c *Ctx) {
		c.Res.Rule = "when GlyphBuf.Load starts to load the outline, the buffer's points, unhinted points, points in font units, contour ends, phantom points, origin and metrics flag are those of a new buffer, for a buffer in any state; metrics and bounds then depend on what is loaded only"
		c.Res.Explanation = absintText + " GlyphBuf.load and hinter.init are replaced by functions that assert what they find, may fail, and leave arbitrary metrics; since the buffer's state is arbitrary, every history of loads is covered."
		c.prove(proof{pkg: pkgTT, driver: "p16.go.txt", own: assertions, setup: iterPaths})
		c.Res.Assumptions = append(c.Res.Assumptions, "coordinates within 2^28", "GlyphBuf.tmp is written before it is read; bounds and the advance width are compared for glyphs of at most one point", "what glyph programs leave in the storage area, control values and twilight zone is not part of the outline state (P17 covers setup)")
	})
	register("P17", "proof", func(c *Ctx) {
		c.Res.Rule = "hinter.init runs the font program once for a new font, on no functions, a clear storage area and twilight zone, unscaled control values and the initial graphics state, and the control value program once for a new font or scale, on a clear storage area, unscaled control values and the initial graphics state; after a program that fails both are run again; the graphics state programs start from is what the control value program left, but for the variables it may not change; control values are scaled anew; Load sets up before it loads"
		c.Res.Explanation = absintText + " hinter.run is replaced by a function that asserts the state it is called in, changes all that programs can, and may fail; two or three setups in a row for two fonts with or without programs, any scales and any sizes of the storage area and twilight zone are followed path by path, one arbitrary element of each array at a time."
		var prs []proof
		for _, pr := range (proof{pkg: pkgTT, driver: "p17.go.txt", own: assertions, setup: iterPaths}).cases(6) {
			prs = append([]proof{pr}, prs...) // the long ones are last
		}
		for _, d := range []string{"p17run.go.txt", "p17cvt.go.txt", "p16.go.txt"} {
			prs = append(prs, proof{pkg: pkgTT, driver: d, own: assertions, setup: iterPaths})
		}
		c.proveAll(prs...)
		c.Res.Assumptions = append(c.Res.Assumptions, "programs are identified by their length: font programs are shorter than 2^16 bytes, control value programs longer", "the storage area and twilight zone are followed over two setups, everything else over three")
	})
	register("P22", "proof", func(c *Ctx) {
		c.Res.Rule = "after a successful GlyphBuf.Load every point, moved by the origin, is within Bounds, whose edges are multiples of 64 when hinting is on; without points Bounds is the zero rectangle"
		c.Res.Explanation = absintText + " GlyphBuf.load is replaced by a function that leaves up to three points anywhere and arbitrary metrics, in a buffer with arbitrary old bounds; all orders of the coordinates are followed path by path."
		c.proveAll(proof{pkg: pkgTT, driver: "p22.go.txt", own: assertions, setup: iterPaths}.cases(4)...)
		c.Res.Assumptions = append(c.Res.Assumptions, "coordinates within 2^28", "glyphs of at most three points; the bounding box loop keeps no state but the box")
	})
}
