From 909376ddac666981a19c64daf0c6ef492af52bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 1/9] fix: paint a trailing unsupported character once, not
 once per leftover byte

paint_str() did not consume the last character of a string when it had no
glyph, so the replacement character was painted again on every remaining
iteration of the byte-bounded loop. Text painted in one call differed from the
same text painted in pieces.
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..4413632 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -70,8 +70,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From a2e72c174701d905829945e5d9eb95b7a32b4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 2/9] fix: clear_region at word-aligned and single-word regions

A region whose right edge is a multiple of 32 shifted by 32 (overflow panic, or
with overflow checks off the whole word right of the region was cleared), and a
region within a single word was cleared up to the end of that word, past its
right edge.
---
 src/blit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 4413632..b02b8b6 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,11 +27,18 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
-        fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
+        let low_mask = 0xffffffff << (32 - px_in_dest_low_word);
+        if dest_low_word == dest_high_word {
+            // Region starts and ends within the same word, so don't clear past its right edge
+            fb[base + dest_low_word] |= low_mask & (0xffffffff >> (32 - px_in_dest_high_word));
+            continue;
+        }
+        fb[base + dest_low_word] |= low_mask;
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        // When the right edge is word aligned, there are no pixels to clear in the high word
+        if px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From ea8f3b5e1d2348db220c1f9c018a96a9769db4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 3/9] fix: keep glyphs inside clip rects that are narrower than
 the glyph

When a glyph was wider than the clip rect, wrapping could not make it fit and
its pixels were painted past the right edge of the clip rect: onto neighboring
pixels, into the next scan line, or past the end of the frame buffer (panic).
---
 src/blit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index b02b8b6..4025e5b 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -189,10 +189,16 @@ fn xor_char(
             pattern_h >>= 32 - px_in_high_word;
             pattern |= pattern_h;
         }
+        // Clip right edge of glyph when the clip rect is too narrow to hold it
+        if x0 >= clip.max.x {
+            continue;
+        } else if x1 > clip.max.x {
+            pattern &= (1 << (clip.max.x - x0)) - 1;
+        }
         // XOR glyph pixels onto destination buffer
         let base = (y0 + y) * WORDS_PER_LINE;
         fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);
-        if px_in_dest_low_word < gh.w {
+        if px_in_dest_low_word < gh.w && dest_high_word < WORDS_PER_LINE {
             fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;
         }
     }
-- 
2.43.0


From c18c51f54aa9efc77a5b4c561a0b1c50f71750d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 4/9] fix: don't overflow on cursors far outside the screen

Cursor coordinates and line height come from the caller. Values near usize::MAX
overflowed: a panic with overflow checks on, and with them off the text wrapped
around to the top left of the screen.
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 4025e5b..78bc654 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -90,7 +90,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height).saturating_add(1);
     c.line_height = 0;
 }
 
@@ -144,9 +144,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -156,7 +156,7 @@ fn xor_char(
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0


From f1cd9cff7f2beedb2159e3ba5d1f3571d4d85315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 5/9] fix: keep going past a glyph that is entirely below the
 clip rect

Such a glyph was reported as painted with 0 bytes used, so paint_str() stayed
on it and dropped the rest of the string, including glyphs of the same line
that start higher and are still visible (e.g. the H of ".H"), and newlines.
Painting the same text in pieces did show them.
---
 src/blit.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 78bc654..c5b4e7c 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -157,10 +157,9 @@ fn xor_char(
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
     let y0 = c.pt.y.saturating_add(gh.y_offset);
-    if y0 > clip.max.y {
-        return Ok(0); // Entire glyph is outside clip rect, so clip it
-    }
-    let y_max = if (y0 + gh.h) <= clip.max.y {
+    let y_max = if y0 > clip.max.y {
+        0 // Entire glyph is outside clip rect, so clip it
+    } else if (y0 + gh.h) <= clip.max.y {
         gh.h
     } else {
         clip.max.y - y0 // Clip bottom of glyph
-- 
2.43.0


From ef7eee5c4caa8232669ad9e342e23f3bc013740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 6/9] fix: codegen reports a font file that could not be
 written

The error from writing a font file was ignored: on a full disk or an I/O error
codegen left a truncated file behind and exited with status 0.
---
 codegen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..06c1524 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,10 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		err := ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From 968a4a3eb0325e7b32b4fba4637642dbb4f80079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 7/9] fix: codegen reads whole glyphs when border and gutter
 differ

---
 codegen/lib/blitpattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..afc084d 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := border + (col * gridSize); x < border+(col*gridSize)+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0


From 7a4304696ee6def820e65cf32b131e7a9bf9563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 8/9] fix: codegen rejects grid cells to the right of the
 sprite sheet

---
 codegen/lib/blitpattern.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index afc084d..59178f2 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -35,7 +35,8 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	col := cs.Col
 	imgRect := img.Bounds()
 	rows := (imgRect.Max.Y - font.Border) / (font.Size + font.Gutter)
-	if row < 0 || row >= rows || col < 0 || col >= font.Cols {
+	xMax := font.Border + (col * (font.Size + font.Gutter)) + font.Size
+	if row < 0 || row >= rows || col < 0 || col >= font.Cols || xMax > imgRect.Max.X {
 		panic("row or column out of range")
 	}
 	// Get pixels for grid cell, converting from RGBA to 1-bit
-- 
2.43.0


From ade2dfdabb11968b39a4f088aa7450510ebd7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 9/9] fix: codegen rejects numbers that are not Unicode code
 points

---
 codegen/lib/charspec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 02793ae..a490536 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // Holds mappings from extended grapheme clusters to sprite sheet glyph grid coordinates
@@ -49,7 +50,7 @@ func StringFromHexGC(hexGC string) string {
 	}
 	for _, hc := range hexCodepoints {
 		n, err := strconv.ParseUint(hc, base, bits)
-		if err != nil {
+		if err != nil || n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
 			panic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))
 		}
 		cluster += string(rune(n))
-- 
2.43.0

