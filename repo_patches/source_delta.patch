From e5530ffb5d52bee3c4e6f7f6b129fe847a31e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 01/24] fix: truetype: honour Options.SubPixelsY instead of
 SubPixelsX

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 125426e315f41b66e9a271d23981c2d793c7b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 02/24] fix: freetype: offset the glyph mask horizontally when
 clipping on the left

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 9603586..c534d8e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,7 +249,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
+			mp := dr.Min.Sub(glyphRect.Min)
 			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
-- 
2.43.0


From 924ee57d037f97f7a9e549cc218849590f8241c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 03/24] fix: freetype: rasterize glyphs at the quantized
 position the cache is keyed by

---
 freetype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freetype.go b/freetype.go
index c534d8e..f101193 100644
--- a/freetype.go
+++ b/freetype.go
@@ -206,6 +206,10 @@ func (c *Context) glyph(glyph truetype.Index, p fixed.Point26_6) (
 	tx := int(fx) / (64 / nXFractions)
 	ty := int(fy) / (64 / nYFractions)
 	t := ((tg*nXFractions)+tx)*nYFractions + ty
+	// Quantize the fractional parts, so that the cached mask depends only on
+	// the cache key and not on which position happened to be drawn first.
+	fx = fixed.Int26_6(tx * (64 / nXFractions))
+	fy = fixed.Int26_6(ty * (64 / nYFractions))
 	// Check for a cache hit.
 	if e := c.cache[t]; e.valid && e.glyph == glyph {
 		return e.advanceWidth, e.mask, e.offset.Add(image.Point{ix, iy}), nil
-- 
2.43.0


From 57f963c03009b285c28cf4908d5fa8e8d72d3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 04/24] fix: truetype: check cmap subtable lengths before
 reading them

---
 truetype/truetype.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..a8908f1 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -204,13 +204,16 @@ func (f *Font) parseCmap() error {
 		return err
 	}
 	offset = int(u32(f.cmap, offset+4))
-	if offset <= 0 || offset > len(f.cmap) {
+	if offset <= 0 || offset > len(f.cmap)-2 {
 		return FormatError("bad cmap offset")
 	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if len(f.cmap)-offset < 14 {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -221,6 +224,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if len(f.cmap)-offset < 8*segCount+2 {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -243,6 +249,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if len(f.cmap)-offset < 16 {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -256,6 +265,9 @@ func (f *Font) parseCmap() error {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint64(len(f.cmap)-offset) < 12*uint64(nGroups) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
-- 
2.43.0


From 4d22a43c9fa8c232729f364a43e7a0b3c914f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 05/24] fix: truetype: treat an out of range cmap glyph offset
 as a missing glyph

---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index a8908f1..37442e2 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -414,6 +414,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
-- 
2.43.0


From 3d42d661dac08a212de03c053d623d842d8a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 06/24] fix: truetype: check that the kern table holds all of
 its pairs

---
 truetype/truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 37442e2..9ae6818 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -357,7 +357,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || 6*f.nKern > len(f.kern)-18 {
 		return FormatError("bad kern table length")
 	}
 	return nil
-- 
2.43.0


From b8c33fd1d42860fc38a2c4ba4b85ad84e2821bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 07/24] fix: truetype: check that a name lies inside the name
 table

---
 truetype/truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 9ae6818..e44716b 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -432,7 +432,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From ad9e5a40518e7bb048eabc2931b6f7d7c9167b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 08/24] fix: truetype: reject a font whose unitsPerEm is zero

---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index e44716b..21cb945 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -285,6 +285,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
-- 
2.43.0


From b8c6ac206f83f068bb3cfe1bdcd4c08fb42b7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 09/24] fix: truetype: return zero metrics when there are no
 horizontal metrics

---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 21cb945..b348a0a 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -474,6 +474,9 @@ func (f *Font) unscaledHMetric(i Index) (h HMetric) {
 	if j < 0 || f.nGlyph <= j {
 		return HMetric{}
 	}
+	if f.nHMetric == 0 {
+		return HMetric{}
+	}
 	if j >= f.nHMetric {
 		p := 4 * (f.nHMetric - 1)
 		return HMetric{
-- 
2.43.0


From 309c7c1e178579c343ba52859e2aee1c685268cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 10/24] fix: truetype: check loca and glyf ranges when loading
 a glyph

---
 truetype/glyph.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..07d4b4c 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -178,9 +178,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if 2*int(i)+4 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if 4*int(i)+8 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +195,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 <= g1 && g1-g0 >= 10 {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyph data out of range")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
-- 
2.43.0


From ea2fbe18512ee397184aba6ea8bd41af85ef69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 11/24] fix: truetype: return an error for truncated or
 malformed simple glyphs

---
 truetype/glyph.go | 49 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 07d4b4c..dbf5843 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -235,7 +235,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -279,21 +282,36 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+// errGlyphTooShort is returned for glyph data that ends prematurely.
+const errGlyphTooShort = FormatError("glyph data too short")
+
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 	offset := loadOffset
+	if len(glyf)-offset < 2*ne+2 {
+		return nil, errGlyphTooShort
+	}
+	prevEnd := 0
 	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+		end := 1 + int(u16(glyf, offset))
+		if end < prevEnd {
+			return nil, FormatError("glyph contours are out of order")
+		}
+		g.Ends = append(g.Ends, end)
+		prevEnd = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if len(glyf)-offset < instrLen {
+		return nil, errGlyphTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -301,13 +319,22 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if offset >= len(glyf) {
+			return nil, errGlyphTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			count := glyf[offset]
 			offset++
+			if int(count) > np1-i {
+				return nil, FormatError("too many glyph flags")
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
@@ -320,6 +347,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -328,6 +358,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if len(glyf)-offset < 2 {
+				return nil, errGlyphTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -337,6 +370,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -345,13 +381,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if len(glyf)-offset < 2 {
+				return nil, errGlyphTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
-- 
2.43.0


From c335f19a260b943703890ee68fef4a5d960681a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 12/24] fix: truetype: return an error for truncated compound
 glyphs

---
 truetype/glyph.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index dbf5843..42250de 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -414,10 +414,16 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if len(glyf)-offset < 6 {
+			return errGlyphTooShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
+			if len(glyf)-offset < 8 {
+				return errGlyphTooShort
+			}
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
 			offset += 8
@@ -433,14 +439,23 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			hasTransform = true
 			switch {
 			case flags&flagWeHaveAScale != 0:
+				if len(glyf)-offset < 2 {
+					return errGlyphTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = transform[0]
 				offset += 2
 			case flags&flagWeHaveAnXAndYScale != 0:
+				if len(glyf)-offset < 4 {
+					return errGlyphTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = int16(u16(glyf, offset+2))
 				offset += 4
 			case flags&flagWeHaveATwoByTwo != 0:
+				if len(glyf)-offset < 8 {
+					return errGlyphTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[1] = int16(u16(glyf, offset+2))
 				transform[2] = int16(u16(glyf, offset+4))
@@ -507,6 +522,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	// Hint the compound glyph.
+	if len(glyf)-offset < instrLen {
+		return errGlyphTooShort
+	}
 	program := glyf[offset : offset+instrLen]
 	// Temporarily adjust the ends to be relative to this compound glyph.
 	if np0 != 0 {
-- 
2.43.0


From e596699e61a708affcb5b60db65b2d0987d25641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 13/24] fix: truetype: drop the phantom points of an empty
 component from all point lists

---
 truetype/glyph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 42250de..c5d8e93 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -218,7 +218,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
 		return nil
 	}
 
-- 
2.43.0


From bffd93584e845fe0e222e70e946e9bd94141a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 14/24] fix: truetype: reject out of range zone pointers in
 hinting programs

---
 truetype/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..98a3c8a 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -331,10 +331,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
-- 
2.43.0


From f3810cf66932067a4e38f70aefd275afdf48b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 15/24] fix: truetype: reject an out of range delta shift in
 hinting programs

---
 truetype/hint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 98a3c8a..bdc6a06 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -900,6 +900,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			// As per C Freetype, the delta shift is at most 6.
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
-- 
2.43.0


From 7f11a8b5455b26d0ec8b19f7b1520454e10c100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 16/24] fix: truetype: avoid overflow in the DELTA stack
 underflow check

---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index bdc6a06..45230ed 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1363,7 +1363,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if int32(top)/2 < n {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
-- 
2.43.0


From d59baa26a9fa910d9d1c66e21047a7e3c002e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 17/24] fix: truetype: avoid division by zero for perpendicular
 freedom and projection vectors

---
 truetype/hint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 45230ed..9aec2f0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1474,6 +1474,11 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	// As per C Freetype, ignore (nearly) perpendicular vectors, to avoid a
+	// division by zero or an excessive movement.
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 613f7f0f0ab75423f04ef6fa6c2e266ac5b03181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 18/24] fix: truetype: return an error for out of range points
 in IP, MIAP, GC and SHC

---
 truetype/hint.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 9aec2f0..1197bc1 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -598,7 +598,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			move := h.gs.zp[zonePointer] != h.gs.zp[2]
 			for j := j0; j < j1; j++ {
 				if move || j != i {
-					h.move(h.point(2, current, j), d, true)
+					p := h.point(2, current, j)
+					if p == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
+					h.move(p, d, true)
 				}
 			}
 
@@ -648,17 +652,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -726,11 +742,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -777,9 +799,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
-- 
2.43.0


From 87f385f8e091dc3c31da7b9af5c6cc79095c6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 19/24] fix: truetype: do not remember a font or scale whose
 fpgm or prep program failed

---
 truetype/hint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 1197bc1..b0dd567 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -143,6 +143,8 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 		}
 		if len(f.fpgm) != 0 {
 			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+				// Do not mistake the font for an initialized one next time.
+				h.font = nil
 				return err
 			}
 		}
@@ -156,6 +158,7 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 
 		if len(f.prep) != 0 {
 			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+				h.font = nil
 				return err
 			}
 			h.defaultGS = h.gs
-- 
2.43.0


From 669085424e258bc151519833fc43070959838a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 20/24] fix: truetype: do not let hinting state leak from a
 previous font or scale

---
 truetype/hint.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index b0dd567..8d34037 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -123,6 +123,13 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 	rescale := h.scale != scale
 	if h.font != f {
 		h.font, rescale = f, true
+		// Do not let the fpgm program see the previous font's state.
+		h.scale = scale
+		h.scaledCVTInitialized = false
+		h.defaultGS = globalDefaultGS
+		for i := range h.store {
+			h.store[i] = 0
+		}
 		if h.functions == nil {
 			h.functions = make(map[int32][]byte)
 		} else {
@@ -155,6 +162,9 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 		h.scaledCVTInitialized = false
 
 		h.defaultGS = globalDefaultGS
+		for i := range h.store {
+			h.store[i] = 0
+		}
 
 		if len(f.prep) != 0 {
 			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-- 
2.43.0


From 4c690e4f234ea86be79bec480213c450d4f89589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 21/24] fix: truetype: keep a face's glyph rectangle inside the
 glyph's own mask area

---
 truetype/face.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..af481f5 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -203,6 +203,9 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymax := -int(b.Min.Y-63) >> 6
 	a.maxw = xmax - xmin
 	a.maxh = ymax - ymin
+	if a.maxw < 0 || a.maxh < 0 {
+		a.maxw, a.maxh = 0, 0
+	}
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
@@ -381,11 +384,20 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 		e0 = e1
 	}
 	a.r.Rasterize(a.p)
+	// A hinted or sub-pixel positioned glyph can be larger than its share of
+	// the mask image. Do not let it show the neighboring glyphs' pixels.
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw > a.maxw {
+		gw = a.maxw
+	}
+	if gh > a.maxh {
+		gh = a.maxh
+	}
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		gw,
+		gh,
 	}, true
 }
 
-- 
2.43.0


From 59506e341c082119e0eb74a13d5591ed4ad59a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 22/24] fix: do not treat unused index cache entries as holding
 rune -1

A face's unused index cache entries held rune -1 and index 0, so looking
up the rune -1 never reached the font, whose cmap can map 0xffffffff.
---
 truetype/face.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index af481f5..7fe3f26 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -187,12 +187,13 @@ func NewFace(f *Font, opts *Options) font.Face {
 	a.subPixelY, a.subPixelBiasY, a.subPixelMaskY = opts.subPixelsY()
 
 	// Fill the cache with invalid entries. Valid glyph cache entries have fx
-	// and fy in the range [0, 64). Valid index cache entries have rune >= 0.
+	// and fy in the range [0, 64). Valid index cache entries are held in the
+	// slot given by the low bits of their rune, and ^i differs from i in those.
 	for i := range a.glyphCache {
 		a.glyphCache[i].key.fy = 0xff
 	}
 	for i := range a.indexCache {
-		a.indexCache[i].rune = -1
+		a.indexCache[i].rune = ^rune(i)
 	}
 
 	// Set the rasterizer's bounds to be big enough to handle the largest glyph.
-- 
2.43.0


From ed94a2241dc2bd310afc5887e68e89d6c1c8a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 23/24] fix: truetype: ignore a negative GlyphCacheEntries
 option

The smallest int has a single bit set, but is no power of two, and NewFace
panicked when making a cache of that length.
---
 truetype/face.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/face.go b/truetype/face.go
index 7fe3f26..8a44814 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -15,7 +15,7 @@ import (
 )
 
 func powerOf2(i int) bool {
-	return i != 0 && (i&(i-1)) == 0
+	return i > 0 && (i&(i-1)) == 0
 }
 
 // Options are optional arguments to NewFace.
-- 
2.43.0


From 4156adab449e421c75ddf5f99f0a887baf559ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 24/24] fix: stroke a quadratic segment with its own normal,
 not that of an earlier segment

---
 raster/stroke.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..0e9f7ec 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -338,6 +338,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	} else {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
+	k.anorm = abnorm
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
-- 
2.43.0

