#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALLB = "every byte string"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TT, FACE, GLYPH, HINT = "truetype/truetype.go", "truetype/face.go", "truetype/glyph.go", "truetype/hint.go"
FT, RAS, PAINT, GEOM, STROKE = "freetype.go", "raster/raster.go", "raster/paint.go", "raster/geom.go", "raster/stroke.go"

prop("P01", "Parsing a font never panics, whatever the bytes",
  "Parsing any byte string as a TrueType font or collection returns normally: it never panics through an out of range index, slice bound or length, a division by zero or a nil dereference.",
  ["inputs"], "every byte string shorter than 2 GiB",
  "The tests parse a handful of well-formed fonts; the guarantee is about every malformed or truncated file.",
  [TT], [("table directory and range checks", "truetype/truetype.go: parse, readTable"), ("cmap/kern/head/hhea/maxp length checks", "truetype/truetype.go: parseCmap, parseKern, parseHead, parseHhea, parseMaxp")])
prop("P02", "Querying a parsed font never panics",
  "For any font that parsed successfully, looking up a rune, a kerning pair, horizontal or vertical metrics, the bounds or a name never panics, for every argument value.",
  ["inputs"], "every font accepted by the parser, every rune, glyph index, scale and name id",
  "The tests query valid fonts with valid arguments; they do not reach tables whose contents point outside themselves.",
  [TT], [("range checks on values read from tables", "truetype/truetype.go: Index, Name, Kern, unscaledHMetric, unscaledVMetric, scale")],
  [("Font", "table slices and the counts derived from them at parse time")])
prop("P03", "Loading a glyph never panics",
  "For any font that parsed successfully, loading any glyph index at any scale and hinting into a new or previously used glyph buffer returns normally or returns an error; it never panics on malformed outlines, compound glyphs, metrics or device tables.",
  ["inputs", "histories"], "every parsed font, glyph index, scale, hinting mode, and every history of earlier loads into the same buffer",
  "The tests load glyphs of valid fonts only; truncated glyph data, hostile component lists and reuse after failures are not exercised.",
  [GLYPH, HINT], [("length checks while decoding", "truetype/glyph.go: load, loadSimple, loadCompound"), ("recursion limit", "truetype/glyph.go: load")],
  [("GlyphBuf", "points, contour ends and the hinter reused between loads")])
prop("P04", "Hinting bytecode cannot crash the interpreter",
  "Whatever font program, control value program or glyph program a font contains, running it ends normally or with an error: stack, storage, control values, points, contours, functions and the program itself are never accessed out of range, nothing is divided by zero and no missing point is dereferenced.",
  ["programs", "histories"], "every bytecode string in the font, pre and glyph programs, every instruction operand, in every order of loads",
  "Tests run the programs of a few well-behaved fonts; hostile or corrupt bytecode is never executed.",
  [HINT], [("stack depth table and overflow checks", "truetype/hint.go: run, truetype/opcodes.go: popCount"), ("point lookup", "truetype/hint.go: point"), ("operand validation", "truetype/hint.go: run")],
  [("interpreter stack, storage, graphics state, CVT", "hinter fields")])
prop("P05", "Parsing, loading and hinting always terminate",
  "Every loop run while parsing a font, querying it, loading a glyph or interpreting its bytecode makes progress on each iteration towards a bound, and recursion is bounded, so no input makes a call loop forever.",
  ["inputs", "programs"], "every byte string, every glyph and bytecode program",
  "A test can only observe that some inputs finish; jumps, loop calls and self-referencing compound glyphs need an argument over all inputs.",
  [TT, GLYPH, HINT], [("step budget", "truetype/hint.go: run"), ("recursion limit", "truetype/glyph.go: load"), ("bounded table scans", "truetype/truetype.go")])
prop("P06", "Failures are reported: a result or an error, never both or neither",
  "An error detected anywhere below an exported function that returns an error reaches its caller: no error is dropped or replaced by success. Functions that return a font or glyph mask together with an error return a usable value exactly when the error is nil, and operations that report an ok flag give it false exactly on failure.",
  ["inputs", "fault_sequences"], "every call chain and every error return site of the library",
  "Each error path needs its own malformed input; the tests take almost none of them.",
  [TT, GLYPH, HINT, FACE, FT], [("error propagation", "every function returning error in the three packages")])
prop("P07", "Rasterized spans are in bounds and non-empty",
  "For any sequence of drawing commands within bounds of the arithmetic, every span handed to the painter lies inside the rasterizer's width and height (shifted by its offset), has positive width, and has an alpha that is neither zero nor above full coverage.",
  ["inputs", "histories"], "every path added, every bounds and offset, both winding rules",
  "Tests compare a few pixels of whole images at best; the contract on every span of every shape is not observable from them.",
  [RAS], [("clipping of spans", "raster/raster.go: Rasterize, areaToAlpha")],
  [("cell lists", "per-row linked lists sorted by x, terminated by -1")])
prop("P08", "A painter sees exactly one final call, and it is the last",
  "Each rasterization calls its painter with done set exactly once, as the last call, after handing over every span exactly once and never an overfull batch; painters that wrap another painter keep that protocol towards the wrapped painter, and the monochrome painter is left ready for reuse.",
  ["inputs", "histories"], "every number and arrangement of spans, every batch boundary, every nesting of wrapping painters",
  "The batch size boundary and painter reuse need particular span counts that the tests do not produce.",
  [RAS, PAINT], [("batching", "raster/raster.go: Rasterize"), ("delegation", "raster/paint.go: MonochromePainter.Paint, GammaCorrectionPainter.Paint")])
prop("P09", "Painters only touch pixels inside their image and the span",
  "Whatever spans they are given, the alpha and RGBA painters never panic and write only pixels that lie inside both the image's bounds and the span.",
  ["inputs"], "every span, every image rectangle (sub-images with any origin and stride included), every colour and operator",
  "Tests paint into images that start at the origin and are as large as the rasterizer, so clipping is never needed.",
  [PAINT], [("span clipping", "raster/paint.go: AlphaOverPainter.Paint, AlphaSrcPainter.Paint, RGBAPainter.Paint")])
prop("P10", "Wrapping painters change alpha, not geometry",
  "The gamma correcting painter forwards every span with its position unchanged and alters only its alpha, leaving empty and full coverage alone; the monochrome painter forwards only fully opaque spans, made of exactly the pixels whose coverage is at least one half.",
  ["inputs", "histories"], "every sequence of span batches",
  "No test drives either painter.",
  [PAINT], [("gamma table lookup", "raster/paint.go: GammaCorrectionPainter.Paint"), ("threshold and merge", "raster/paint.go: MonochromePainter.Paint")])
prop("P11", "Changing a drawing context's settings takes effect on later draws",
  "After setting a context's font, size, resolution or hinting to a new value, later drawing uses the new value: the scale and the rasterizer's bounds are recomputed from the current settings and no glyph image cached under the old settings is drawn again. Setting destination, source or clip replaces them.",
  ["histories", "configurations"], "every order of setter and draw calls, every value",
  "The tests set each option once before drawing; stale state needs a change after a draw.",
  [FT], [("recalculation and cache invalidation", "freetype.go: recalc, SetDPI, SetFont, SetFontSize, SetHinting")],
  [("glyph cache", "masks keyed by glyph and sub-pixel position")])
prop("P12", "A cached glyph is identical to a freshly rasterized one",
  "Whatever was drawn before, a glyph or rune served from a cache gives the same mask, offset, metrics or index as recomputing it would: everything the result depends on is either part of the cache key or cannot change while the entry is valid, and an unused entry never matches.",
  ["histories", "inputs"], "every history of glyph requests, glyph index, sub-pixel position and option values",
  "A collision needs two particular requests in sequence; the tests draw each glyph once.",
  [FT, FACE], [("cache key and hit test", "freetype.go: glyph; truetype/face.go: Glyph, index"), ("invalid initial entries", "truetype/face.go: NewFace")],
  [("glyph and index caches", "entries reused across calls")])
prop("P13", "A face's glyph masks do not overlap or leave the shared image",
  "Each glyph a face returns is painted only inside its own area of the face's shared mask image, that area is cleared first, and the returned rectangle and mask point select pixels of that area only.",
  ["inputs", "histories"], "every font, size, option set, glyph and sub-pixel position",
  "Overlap shows only for glyphs larger than the font's declared bounds or for particular cache slots.",
  [FACE], [("strip offset and clipping", "truetype/face.go: Glyph, rasterize, facePainter.Paint")])
prop("P14", "A parsed font is immutable",
  "No operation of the library modifies a font after parsing has returned it, nor the byte slice it was parsed from, so one font can be shared by any number of glyph buffers, faces and contexts, also concurrently.",
  ["schedules", "histories"], "every call of the library after parsing, in every interleaving",
  "A write that happens only on some path, or a race, is not visible in single-threaded tests of a few calls.",
  [TT, GLYPH, HINT, FACE, FT], [("read-only table slices", "all functions that receive a *Font")])
prop("P15", "No hidden global state",
  "Separate contexts, faces, glyph buffers and rasterizers share no mutable state: the packages write no package-level variable after initialisation and start no goroutines, so distinct objects can be used concurrently and results do not depend on what other objects did.",
  ["schedules", "histories"], "every use of distinct objects in every interleaving",
  "The tests are sequential and use one object at a time.",
  [TT, GLYPH, HINT, FACE, FT, RAS, PAINT, GEOM, STROKE], [("state only in receiver objects", "all packages")])
prop("P16", "Reusing a glyph buffer gives the same outline as a new one",
  "Loading a glyph into a buffer that was used before, whether the earlier loads succeeded or failed, starts from the same outline state as a new buffer: no point, contour, metric, phantom point or flag of an earlier glyph is kept.",
  ["histories"], "every history of loads into one buffer, including failing ones",
  "Tests reuse a buffer only over successful loads with the same font and scale.",
  [GLYPH], [("reset at the start of a load", "truetype/glyph.go: Load")])
prop("P17", "Hinting state is rebuilt when the font or scale changes",
  "When a glyph buffer is used with hinting for a different font or scale than before, the font's setup programs are run again on fresh state (functions, control values, storage, default graphics state) before any glyph program; a setup program that failed is not treated as having run.",
  ["histories", "fault_sequences"], "every sequence of fonts, scales and failing loads through one buffer",
  "The tests use one buffer per font and never see a failing setup program.",
  [HINT], [("initialisation", "truetype/hint.go: init"), ("entry", "truetype/glyph.go: Load")],
  [("remembered font and scale", "decide whether setup is repeated")])
prop("P18", "Path encoders and decoders agree",
  "Every path built by the path operations is decoded by the rasterizer, the stroker, the reverser and the printer into the same commands and points it was built from, without reading outside the path.",
  ["inputs"], "every sequence of start, line, quadratic and cubic commands, and concatenations of paths",
  "The tests do not build or decode paths of mixed segment kinds.",
  [GEOM, RAS, STROKE], [("segment encoding", "raster/geom.go: Path.Start, Add1, Add2, Add3"), ("decoding loops", "raster/raster.go: AddPath; raster/geom.go: String, addPathReversed; raster/stroke.go: Stroke, stroke")])
prop("P19", "Face options: documented defaults, domains and effect",
  "Nil options and zero-valued fields mean the documented defaults (12 points, 72 DPI, no hinting, 512 cache entries, 4 by 1 sub-pixel positions), values outside an option's documented domain are never used, and each option affects exactly the aspect it documents.",
  ["configurations"], "every option value, including nil, negative, non powers of two and very large ones",
  "No test constructs a face.",
  [FACE], [("option accessors", "truetype/face.go: Options methods, subPixels, NewFace")])
prop("P20", "Measuring agrees with drawing",
  "A face's advance, bounds and rendering of a rune are all derived from loading the same glyph at the face's scale and hinting, and report its advance unchanged; kerning is looked up in the order given at the same scale and rounded to whole pixels exactly when hinting is on, by faces and contexts alike.",
  ["inputs", "configurations"], "every rune or pair, scale and hinting mode",
  "No test compares the measuring calls with the drawing calls.",
  [FACE, FT], [("glyph loading", "truetype/face.go: Glyph, GlyphBounds, GlyphAdvance, Kern"), ("text layout", "freetype.go: DrawString")])
prop("P21", "Drawing text stays inside the clip and keeps masks aligned",
  "Drawing a string only composes the source onto the destination inside the intersection of the clip and each glyph's own rectangle, with the mask aligned to that rectangle for every clip; each glyph is placed at the pen, the pen advances by kerning and advance width, and the final pen position is returned.",
  ["inputs", "configurations"], "every string, pen position and clip rectangle",
  "Tests that draw use one clip that contains all of the text.",
  [FT], [("clipping and mask offset", "freetype.go: DrawString")])
prop("P22", "Glyph bounds contain every point",
  "After a successful load the reported bounds contain every point of the glyph, in pixel-aligned form when hinting is on, and are empty for a glyph without points.",
  ["inputs"], "every glyph of every font within the range of the arithmetic",
  "Tests compare the bounds of a few hundred glyphs of fonts whose extremes are well away from odd cases.",
  [GLYPH], [("bounding box loop", "truetype/glyph.go: Load")])
prop("P23", "Drawing outside the rasterizer's bounds is safe",
  "Adding lines and curves anywhere on the plane, inside or outside the rasterizer's bounds, never panics or loops forever; curve subdivision is bounded and out of bounds rows are ignored.",
  ["inputs", "histories"], "every coordinate, every bounds (zero and negative sizes included), every command order",
  "Tests draw inside the bounds only.",
  [RAS], [("row check and column clamping", "raster/raster.go: findCell"), ("subdivision stacks", "raster/raster.go: Add2, Add3")])
prop("P24", "Names are printable ASCII",
  "A font name query returns only printable ASCII characters, with every other character replaced, one output byte per encoded character.",
  ["inputs"], "every name table, every name id",
  "The tests read the names of fonts whose names are plain ASCII.",
  [TT], [("character filter", "truetype/truetype.go: printable, Name")])
prop("P25", "Stroking with nil cap or join uses round ones",
  "Stroking with a nil capper or joiner behaves as with the round capper and round joiner, never calls through nil, and an empty path strokes to nothing.",
  ["inputs", "configurations"], "every path, width, and combination of nil and non-nil styles",
  "The tests do not stroke at all.",
  [STROKE, RAS, GEOM], [("defaulting", "raster/stroke.go: Stroke")])
prop("P26", "A stroked curve's outline is closed and depends on that curve alone",
  "The outline of a stroked curve is one closed curve: caps and joins begin and end exactly where its two sides do, in every style, and nothing of a curve stroked before it is left in it.",
  ["inputs", "histories"], "every curve, width and style, after every other curve",
  "The tests do not stroke at all.",
  [STROKE, GEOM], [("cap and join styles", "raster/stroke.go: roundCapper, squareCapper, buttCapper, roundJoiner, bevelJoiner, addArc"), ("stroking state", "raster/stroke.go: stroker.stroke, Add1, Add2")])
# Declined as a whole.
prop("P30", "Coverage is the exact area of the path",
  "The alpha of each pixel is the path's area coverage of that pixel under the selected winding rule, up to the rounding of the alpha quantisation.",
  ["inputs"], "every path", "Tests compare no rasterized pixel with an independent area computation.",
  [RAS], [("area and cover accumulation", "raster/raster.go: scan, Add1, Rasterize")])
prop("P31", "Hinted and scaled outlines equal those of the C FreeType library",
  "For a well-formed font, the loaded outline, hinted or not, is the outline the reference implementation produces.",
  ["inputs", "programs"], "every glyph of every well-formed font", "The tests compare two fonts at one size.",
  [GLYPH, HINT], [("bytecode semantics", "truetype/hint.go: run")])
prop("P32", "A stroke has the requested width, caps and joins",
  "Stroking a path fills the points within half the width of the path, ended and joined as the styles say, up to the approximation of curves.",
  ["inputs"], "every path and width", "There is no test of stroking.",
  [STROKE], [("offset curves", "raster/stroke.go: Add1, Add2, addArc")])
prop("P33", "Gamma correction follows the power curve",
  "A span's corrected alpha is its coverage raised to the gamma value, up to the interpolation of a 256 entry table, and is monotonic.",
  ["inputs"], "every gamma and alpha", "There is no test of gamma correction.",
  [PAINT], [("table", "raster/paint.go: SetGamma")])
prop("P34", "Rune, kerning and metric lookups return what the tables say",
  "For a well-formed font, the glyph index of a rune, the kerning of a pair and the metrics of a glyph are those recorded in the font's tables, scaled with rounding to the nearest unit.",
  ["inputs"], "every well-formed font and argument", "The tests check some runes of two fonts.",
  [TT], [("binary searches and scaling", "truetype/truetype.go: Index, Kern, HMetric, scale")])
prop("P35", "Composition arithmetic of the painters is Porter-Duff",
  "The painters blend colour and coverage as the selected Porter-Duff operator defines, up to rounding.",
  ["inputs"], "every colour, coverage and destination pixel", "The tests paint black on white.",
  [PAINT], [("blending", "raster/paint.go")])
prop("P36", "Loading a glyph takes time proportional to the font",
  "The work done by loading one glyph is bounded by a small multiple of the size of the font.",
  ["inputs"], "every font", "Tests load small fonts.",
  [GLYPH], [("recursion limit", "truetype/glyph.go: load")])
prop("P37", "Spans are ordered and disjoint",
  "The spans of a rasterization are ordered by row and then by column, and do not overlap.",
  ["inputs", "histories"], "every path", "Tests do not look at spans.",
  [RAS], [("sorted cell lists", "raster/raster.go: findCell, Rasterize")])

NA = {
 "P04": "Attempted, not completed: the operand stack accesses of the 120-case, 1300-line interpreter are guarded by one test against a table indexed by opcode; proving them needs opcode, table entry and case correlated through the loop plus invariants of the operand loops, which the abstract domains used here lose. See DESIGN.md section 5.",
 "P23": "Needs an invariant over all elements of the cell array (every next index is in range) and a logarithmic bound on the subdivision depth; the domains used here cannot state either, so six accesses in raster.go stay undischarged. See DESIGN.md section 5.",
 "P30": "The statement is about numerical results (sums of products of runtime coordinates) compared with real-valued geometry; no source-level dataflow fact decides it. The structural clauses (bounds, protocol) are P07 and P08.",
 "P37": "Needs the sortedness of every linked list of cells as an inductive heap-shape invariant across findCell and Rasterize, which the array summaries used here cannot express.",
 "P31": "Equality with another implementation's runtime output; nothing in the source states the reference semantics, and the numeric content of each instruction is a runtime quantity. Memory safety and state handling of the same code are P04, P16 and P17.",
 "P32": "Geometric distance between runtime curves; a numerical property with no structural necessary condition beyond the ones claimed in P18 and P25.",
 "P33": "A statement about floating point values of math.Pow and their interpolation; the structural part (geometry kept, extremes untouched) is P10.",
 "P34": "Equality of runtime values with the bytes of a table under binary search needs sortedness of the font's data, a runtime quantity; the safety part is P02.",
 "P35": "Numerical results of 16-bit blends; the structural part (which pixels are written) is P09.",
 "P36": "Compound glyphs may nest 32 deep and refer to each other, so the work is exponential in a runtime quantity by construction; termination is claimed in P05, cost is not.",
}

# id -> (technique, level, note)
CHECKS = json.load(open(os.path.join(V, "gen", "claims.json")))
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                           "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
    m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every check reads /repo's source only. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
