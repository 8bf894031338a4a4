From e7bde4c5256b3d51be9a577f2169a80a677a5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 01/47] fix: reject decreasing glyph locations instead of
 panicking

---
 table_glyf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..4b65182 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -59,6 +59,11 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 			return nil, err
 		}
 
+		if gdLen < 0 {
+			logrus.Debugf("gid: %d, negative glyph data length: %d", gid, gdLen)
+			return nil, errRangeCheck
+		}
+
 		if gdOffset > int64(tr.length) {
 			logrus.Debugf("gid: %d, gdOffset: %d, tr len: %d, gd len: %d", gid, gdOffset, tr.length, gdLen)
 			logrus.Debugf("Range check error (glyf): %d > %d", gdOffset, tr.length)
-- 
2.43.0


From ec35bca12a85a51d656cd6b86813ff8da112c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 02/47] fix: do not allocate what a font merely declares as its
 table and glyph lengths

---
 byte_reader.go | 9 +++++++++
 table_glyf.go  | 1 -
 table_post.go  | 2 +-
 validate.go    | 4 ++--
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..2c01d4e 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"io"
 
@@ -53,6 +54,14 @@ func (r *byteReader) Skip(n int) error {
 
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
+	if length > 1<<16 {
+		// Allocate only as far as there is data, rather than trusting `length`.
+		var buf bytes.Buffer
+		_, err := io.CopyN(&buf, r.reader, int64(length))
+		*bp = buf.Bytes()
+		return err
+	}
+
 	*bp = make([]byte, length)
 	_, err := io.ReadFull(r.reader, *bp)
 	if err != nil {
diff --git a/table_glyf.go b/table_glyf.go
index 4b65182..3f39ff9 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -77,7 +77,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
diff --git a/table_post.go b/table_post.go
index 261ea65..0227ba5 100644
--- a/table_post.go
+++ b/table_post.go
@@ -132,7 +132,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				break
 			}
 
-			name := make([]byte, numChars)
+			var name []byte
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
 				logrus.Debugf("ERROR: %v", err)
diff --git a/validate.go b/validate.go
index 7b7260e..61aa368 100644
--- a/validate.go
+++ b/validate.go
@@ -88,8 +88,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 79140453357036402acd34a80287e7bf051c3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 03/47] fix: glyph names of 128 bytes or more in post 2.0 no
 longer panic

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 0227ba5..9f6dc10 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ad5c502a6d27a72952b4dcb84be06d02beaddf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 04/47] fix: accept post 2.0 tables in which glyphs share a
 name

---
 table_post.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index 9f6dc10..465b13d 100644
--- a/table_post.go
+++ b/table_post.go
@@ -109,10 +109,11 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Several glyphs can share a name: the number of names follows from the highest index.
 		newGlyphs := 0
 		for _, ni := range t.glyphNameIndex {
-			if ni >= 258 && ni <= 32767 {
-				newGlyphs++
+			if ni >= 258 && ni <= 32767 && int(ni)-257 > newGlyphs {
+				newGlyphs = int(ni) - 257
 			}
 		}
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
-- 
2.43.0


From 4ed80a60487d54a9f1cebd90d493b2baa48317db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 05/47] fix: accept post 1.0 tables, and write them only for
 the 258 standard glyphs

---
 table_post.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 465b13d..a02e99b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,6 +84,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
+		t.numGlyphs = f.maxp.numGlyphs
 		if t.numGlyphs != 258 {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
@@ -210,7 +211,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || f.maxp.numGlyphs != 258 {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From 7fe06a08f6e14596ef01ba2f8991de96a698a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 06/47] fix: accept post 2.5 tables

---
 byte_reader.go | 8 ++++++++
 table_post.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 2c01d4e..f7d777b 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -90,6 +90,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]int16:
 		for i := 0; i < length; i++ {
 			val, err := r.readInt16()
diff --git a/table_post.go b/table_post.go
index a02e99b..f8c70d9 100644
--- a/table_post.go
+++ b/table_post.go
@@ -185,7 +185,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From a82a804e1a73a22242d7e1ca66db2439dc95707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 07/47] fix: writing a font leaves its post table as it was

---
 table_post.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index f8c70d9..0778cfd 100644
--- a/table_post.go
+++ b/table_post.go
@@ -215,10 +215,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(fixed(version), t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a9c66c7dea1cb5d7bf6be98e0215fec675effb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 08/47] fix: cmap with unsupported subtables is written with
 the right number of records

---
 table_cmap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..a1cac31 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -557,8 +557,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -602,7 +600,13 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
+	if err != nil {
+		return err
+	}
+
+	// Unsupported subtables were not kept, so this can differ from t.numTables.
+	err = w.write(t.version, uint16(len(encodingRecords)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 121b029d4a65aafd11d47efaa98fa7e7439e07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 09/47] fix: cmap subtables for the same platform and encoding
 are all kept, and looked up in order

---
 export.go     | 3 ++-
 table_cmap.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 72b111b..40bee15 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
diff --git a/table_cmap.go b/table_cmap.go
index a1cac31..0c24ef3 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -102,6 +102,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Subtables that differ only in language: keep them all.
+				key = fmt.Sprintf("%s,%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From 189cd46fd201b50dd36d2e79c29d533b2d8d83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 10/47] fix: format 0 character maps map character codes to
 glyphs, not the other way round

---
 export.go     |  2 +-
 table_cmap.go | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/export.go b/export.go
index 40bee15..2929ce5 100644
--- a/export.go
+++ b/export.go
@@ -407,7 +407,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
diff --git a/table_cmap.go b/table_cmap.go
index 0c24ef3..c15922e 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -170,12 +170,16 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
+	// The array is indexed by charcode.
+	for code, glyphID := range st.glyphIDArray {
 		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if glyphID == 0 {
+			continue
+		}
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From 031b65f87988ef49e6866925446976e476604f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 11/47] fix: LookupRunes searches on when a character map has
 only the missing glyph for a rune

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 2929ce5..6155ab9 100644
--- a/export.go
+++ b/export.go
@@ -111,7 +111,7 @@ func (f *Font) LookupRunes(runes []rune) []GlyphIndex {
 		index := GlyphIndex(0)
 		for _, cmap := range maps {
 			ind, has := cmap[r]
-			if has {
+			if has && ind != 0 {
 				index = ind
 				break
 			}
-- 
2.43.0


From 75f61c2a25e2c523c43b801fab17503c55a16bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 12/47] fix: Unicode platform full repertoire maps are read as
 such

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..1da6a4c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Unicode full repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 5c7fe6e2aad632e19001b06f706de0496f0c5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 13/47] fix: single byte codes of Shift-JIS, PRC and Big5
 character maps are decoded

---
 encoding.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/encoding.go b/encoding.go
index 1da6a4c..7d5a412 100644
--- a/encoding.go
+++ b/encoding.go
@@ -126,6 +126,7 @@ const (
 func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	var d *encoding.Decoder
 	var charcodeBytes int
+	var mixedWidth bool
 
 	switch e {
 	case cmapEncodingUCS2:
@@ -143,12 +144,15 @@ func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	case cmapEncodingShiftJIS:
 		d = japanese.ShiftJIS.NewDecoder()
 		charcodeBytes = 2
+		mixedWidth = true
 	case cmapEncodingPRC:
 		d = simplifiedchinese.GBK.NewDecoder()
 		charcodeBytes = 2
+		mixedWidth = true
 	case cmapEncodingBig5:
 		d = traditionalchinese.Big5.NewDecoder()
 		charcodeBytes = 2
+		mixedWidth = true
 	}
 
 	if d == nil {
@@ -160,6 +164,7 @@ func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 	return runeDecoder{
 		Decoder:       d,
 		charcodeBytes: charcodeBytes,
+		mixedWidth:    mixedWidth,
 	}
 }
 
@@ -167,10 +172,15 @@ func (e cmapEncoding) GetRuneDecoder() runeDecoder {
 type runeDecoder struct {
 	*encoding.Decoder
 	charcodeBytes int // number of bytes per charcode in TTF data.
+
+	mixedWidth bool // charcodes below 256 are encoded as a single byte.
 }
 
 // ToBytes encodes `charcode` into bytes as represented in TTF data.
 func (d runeDecoder) ToBytes(charcode uint32) []byte {
+	if d.mixedWidth && charcode < 0x100 {
+		return []byte{byte(charcode)}
+	}
 	b := make([]byte, d.charcodeBytes)
 
 	switch d.charcodeBytes {
-- 
2.43.0


From 860478aa4d4a73a882b55145e900a58214c52768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 14/47] fix: glyph of a format 12 group is range checked before
 it is truncated to 16 bits

---
 table_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index c15922e..6e308e8 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -502,8 +502,8 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
 		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
-- 
2.43.0


From e2b238685a6f082d2cc3d3692d309958c2f2d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 15/47] fix: SubsetKeepIndices no longer empties glyphs of the
 font it is called on

---
 export.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 6155ab9..30a8e2f 100644
--- a/export.go
+++ b/export.go
@@ -199,13 +199,14 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		newfnt.glyf = &glyfTable{}
 		*newfnt.glyf = *f.font.glyf
 
-		// Empty glyf contents for non-included glyphs.
+		// Empty glyf contents for non-included glyphs (in the subset only).
+		newfnt.glyf.descs = append([]*glyphDescription(nil), f.font.glyf.descs...)
 		for i := range newfnt.glyf.descs {
 			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
 				continue
 			}
 
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs[i] = &glyphDescription{}
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From 76a3d4e4fab061c71f81592f8573a04e19ffdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 16/47] fix: looking up glyph components does not change the
 font

---
 table_glyf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index 3f39ff9..927bec3 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -255,7 +255,7 @@ func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
 	}
 
 	var components []GlyphIndex
-	gdesc := glyf.descs[int(gid)]
+	gdesc := *glyf.descs[int(gid)] // A copy: descriptions are shared between fonts.
 
 	if gdesc.header == nil {
 		if len(gdesc.raw) == 0 {
-- 
2.43.0


From 0c9fca680d0606e9d785d6155be08cfddd6f7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 17/47] fix: character maps of a subset have no removed glyphs,
 and those of its source are not changed

---
 export.go     |  6 +++++-
 table_cmap.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 30a8e2f..c8f12ee 100644
--- a/export.go
+++ b/export.go
@@ -404,9 +404,11 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].limitedTo(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
+				subt.ctx = t
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
@@ -468,6 +470,8 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
+				subt.ctx = t
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
diff --git a/table_cmap.go b/table_cmap.go
index 6e308e8..f6b4249 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -131,6 +132,54 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// limitedTo returns a copy of `t` with only the mappings to the first `numGlyphs` glyphs.
+// The format specific data (ctx) is that of `t`.
+func (t *cmapSubtable) limitedTo(numGlyphs int) *cmapSubtable {
+	limited := *t
+	limited.cmap = map[rune]GlyphIndex{}
+	limited.charcodeToGID = map[CharCode]GlyphIndex{}
+	limited.runeToCharcodeBytes = nil
+	if t.format == 4 || t.format == 12 {
+		// Listed by glyph in these formats (by character code in the others).
+		if len(t.runes) > numGlyphs {
+			limited.runes = t.runes[:numGlyphs:numGlyphs]
+		}
+		if len(t.charcodes) > numGlyphs {
+			limited.charcodes = t.charcodes[:numGlyphs:numGlyphs]
+		}
+	}
+
+	var charcodes []CharCode
+	for cc, gid := range t.charcodeToGID {
+		if int(gid) < numGlyphs {
+			limited.charcodeToGID[cc] = gid
+			charcodes = append(charcodes, cc)
+		}
+	}
+	sort.Slice(charcodes, func(i, j int) bool {
+		return charcodes[i] < charcodes[j]
+	})
+	decoder := getCmapEncoding(t.platformID, t.encodingID).GetRuneDecoder()
+	for _, cc := range charcodes {
+		gid := limited.charcodeToGID[cc]
+		if gid == 0 {
+			continue
+		}
+		b := decoder.ToBytes(uint32(cc))
+		r := decoder.DecodeRune(b)
+		if _, has := limited.cmap[r]; !has {
+			limited.cmap[r] = gid
+			if t.runeToCharcodeBytes != nil {
+				if limited.runeToCharcodeBytes == nil {
+					limited.runeToCharcodeBytes = map[rune][]byte{}
+				}
+				limited.runeToCharcodeBytes[r] = b
+			}
+		}
+	}
+	return &limited
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From 76ca02c121b5066ab46e8371268f4804c4fb3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 18/47] fix: short locations of glyphs of 64 KB and more do not
 wrap in subsets

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index c8f12ee..580398e 100644
--- a/export.go
+++ b/export.go
@@ -220,7 +220,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -347,7 +347,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From c8b429c4a2d5e3ef40c55ac18771ff9369f7126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 19/47] fix: glyph locations are right when the first glyph of
 the font read is not at offset 0

---
 export.go     |  4 ----
 table_loca.go | 13 +++++++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/export.go b/export.go
index 580398e..e71ec7e 100644
--- a/export.go
+++ b/export.go
@@ -213,10 +213,8 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
@@ -340,10 +338,8 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, numGlyphs+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
diff --git a/table_loca.go b/table_loca.go
index 9940b6b..0cdf96d 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -109,7 +109,16 @@ func (f *font) writeLoca(w *byteWriter) error {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		// The first glyph is written at the start of glyf, wherever it was in the font read.
+		offsets := append([]offset16(nil), t.offsetsShort...)
+		for i := range offsets {
+			offsets[i] -= t.offsetsShort[0]
+		}
+		return w.writeSlice(offsets)
+	}
+	offsets := append([]offset32(nil), t.offsetsLong...)
+	for i := range offsets {
+		offsets[i] -= t.offsetsLong[0]
 	}
-	return w.writeSlice(t.offsetsLong)
+	return w.writeSlice(offsets)
 }
-- 
2.43.0


From 90bbb224a8352c60b662b9c4a7b5791f4347766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 20/47] fix: GetNameRecords of a font without a name table is
 empty

---
 table_name.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_name.go b/table_name.go
index dfa7be2..09787b5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From d0379f09d8d83de0b23973d469d6ed192afc146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 21/47] fix: Optimize accepts fonts without an hmtx table

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From dc843f63615f50b7a5f06137ef6bc2a12ae26309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 22/47] fix: subsetting without glyf, or to a negative number
 of glyphs, does not panic

---
 export.go     | 4 ++++
 table_glyf.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/export.go b/export.go
index e71ec7e..cc42ae8 100644
--- a/export.go
+++ b/export.go
@@ -281,6 +281,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 // Prunes out the glyphs from the previous font beyond that number.
 // NOTE: If any of the first numGlyphs depend on later glyphs, it can lead to incorrect rendering.
 func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
+	if numGlyphs < 0 {
+		logrus.Debugf("Negative number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	if int(f.maxp.numGlyphs) <= numGlyphs {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
diff --git a/table_glyf.go b/table_glyf.go
index 927bec3..16e0dc9 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -249,6 +249,9 @@ func (f compositeGlyphFlag) IsSet(flag compositeGlyphFlag) bool {
 
 // Returns list of glyphs that `gid` depends on (other than itself).
 func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
+	if glyf == nil {
+		return nil, nil
+	}
 	if int(gid) >= len(glyf.descs) {
 		logrus.Debugf("GID not accessible (%d > %d)", gid, len(glyf.descs))
 		return nil, nil
-- 
2.43.0


From 88246cfca75362c178af301bec8b1d3c25b22d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 23/47] fix: tables are written on 4 byte boundaries

---
 byte_writer.go | 12 ++++++++++++
 font.go        | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..0dfea42 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -41,6 +41,18 @@ func (w *byteWriter) flush() error {
 	return nil
 }
 
+// flushAligned pads the buffer with zeros to a multiple of 4 bytes (as tables are aligned in
+// truetype fonts) and flushes it.
+func (w *byteWriter) flushAligned() error {
+	for w.bufferedLen()%4 != 0 {
+		err := w.writeBytes([]byte{0})
+		if err != nil {
+			return err
+		}
+	}
+	return w.flush()
+}
+
 // bufferedLen returns the length of the current buffer.
 func (w *byteWriter) bufferedLen() int {
 	return w.buffer.Len()
diff --git a/font.go b/font.go
index c8b6bff..67567d7 100644
--- a/font.go
+++ b/font.go
@@ -245,7 +245,7 @@ func (f *font) write(w *byteWriter) error {
 		}
 		headChecksum = bufw.checksum()
 		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
-		err = bufw.flush()
+		err = bufw.flushAligned()
 		if err != nil {
 			return err
 		}
@@ -257,7 +257,7 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
-		err = bufw.flush()
+		err = bufw.flushAligned()
 		if err != nil {
 			return err
 		}
@@ -270,7 +270,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -284,7 +284,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -298,7 +298,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -312,7 +312,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -326,7 +326,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -340,7 +340,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -354,7 +354,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -368,7 +368,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -382,7 +382,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -396,7 +396,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
@@ -410,7 +410,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushAligned()
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 0ec10dfe688f64b30506d00cda4c634c088ed73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 24/47] fix: table records are written in ascending order of
 tag

---
 font.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/font.go b/font.go
index 67567d7..0835493 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -418,6 +419,11 @@ func (f *font) write(w *byteWriter) error {
 	}
 	logrus.Trace("Write 3")
 
+	// Table records are in ascending order of tag.
+	sort.Slice(trec.list, func(i, j int) bool {
+		return bytes.Compare(trec.list[i].tableTag[:], trec.list[j].tableTag[:]) < 0
+	})
+
 	// Write the offset and table records to another mock buffer.
 	var bufh bytes.Buffer
 	{
-- 
2.43.0


From b59ab6e894e26e70eeca1b09b7948fa791cbc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 25/47] fix: binary search fields of the offset table are those
 of the tables written

---
 font.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index 0835493..f2a9364 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math/bits"
 	"sort"
 
 	"github.com/sirupsen/logrus"
@@ -209,12 +210,13 @@ func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
 	otTable := &offsetTable{
-		sfntVersion:   f.ot.sfntVersion,
-		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		sfntVersion: f.ot.sfntVersion,
+		numTables:   uint16(numTables),
 	}
+	// The number of tables can differ from that of the font read.
+	otTable.entrySelector = uint16(bits.Len(uint(numTables)) - 1)
+	otTable.searchRange = 16 << otTable.entrySelector
+	otTable.rangeShift = uint16(numTables)*16 - otTable.searchRange
 	trec := &tableRecords{}
 
 	f.ot.numTables = uint16(numTables)
-- 
2.43.0


From 6544ef04d95794c4ce76c5cc3a7a98b757296f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 26/47] fix: writing a font leaves its head and offset tables
 as they were

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index f2a9364..ac09d6b 100644
--- a/font.go
+++ b/font.go
@@ -219,8 +219,6 @@ func (f *font) write(w *byteWriter) error {
 	otTable.rangeShift = uint16(numTables)*16 - otTable.searchRange
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -240,9 +238,10 @@ func (f *font) write(w *byteWriter) error {
 		bufw := newByteWriter(&buf)
 
 		// head.
-		f.head.checksumAdjustment = 0
+		head := *f.head
+		head.checksumAdjustment = 0
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := (&font{head: &head}).writeHead(bufw)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f393801f4a76d6d0a7b27fa57763acec8e50639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 27/47] fix: writing a font leaves its name table as it was

---
 table_name.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/table_name.go b/table_name.go
index 09787b5..721e3a4 100644
--- a/table_name.go
+++ b/table_name.go
@@ -262,21 +262,20 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	t := f.name
 
-	// Preprocess: Write to buffer and update offsets.
+	// Preprocess: Write to buffer and collect offsets.
 	var buf bytes.Buffer
+	var nameOffsets, langTagOffsets []offset16
 	{
 		bufw := newByteWriter(&buf)
 		for _, nr := range t.nameRecords {
-			nr.offset = offset16(bufw.bufferedLen())
-			nr.length = uint16(len(nr.data))
+			nameOffsets = append(nameOffsets, offset16(bufw.bufferedLen()))
 			err := bufw.writeSlice(nr.data)
 			if err != nil {
 				return err
 			}
 		}
 		for _, ltr := range t.langTagRecords {
-			ltr.offset = offset16(bufw.bufferedLen())
-			ltr.length = uint16(len(ltr.data))
+			langTagOffsets = append(langTagOffsets, offset16(bufw.bufferedLen()))
 			err := bufw.writeSlice(ltr.data)
 			if err != nil {
 				return err
@@ -289,24 +288,24 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	logrus.Debugf("Buffer length: %d", buf.Len())
 
-	// Update count and stringOffsets (calculated).
-	t.count = uint16(len(t.nameRecords))
-	t.langTagCount = uint16(len(t.langTagRecords))
+	// Count and stringOffsets (calculated).
+	count := uint16(len(t.nameRecords))
+	langTagCount := uint16(len(t.langTagRecords))
 
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
+	stringOffset := 6 + offset16(count)*12
 	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
+		stringOffset += 2 + offset16(langTagCount)*4
 	}
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
-	err := w.write(t.format, t.count, t.stringOffset)
+	err := w.write(t.format, count, stringOffset)
 	if err != nil {
 		return err
 	}
 
-	for _, nr := range t.nameRecords {
-		err = w.write(nr.platformID, nr.encodingID, nr.languageID, nr.nameID, nr.length, nr.offset)
+	for i, nr := range t.nameRecords {
+		err = w.write(nr.platformID, nr.encodingID, nr.languageID, nr.nameID, uint16(len(nr.data)), nameOffsets[i])
 		if err != nil {
 			return err
 		}
@@ -314,12 +313,12 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	logrus.Debugf("w @ %d", w.bufferedLen())
 
 	if t.format == 1 {
-		err = w.write(t.langTagCount)
+		err = w.write(langTagCount)
 		if err != nil {
 			return err
 		}
-		for _, ltr := range t.langTagRecords {
-			err = w.write(ltr.length, ltr.offset)
+		for i, ltr := range t.langTagRecords {
+			err = w.write(uint16(len(ltr.data)), langTagOffsets[i])
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 29717010408667ac8ebf4e92476362e830c56fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 28/47] fix: name strings that share storage do so when written
 too, so that their offsets do not overflow

---
 table_name.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/table_name.go b/table_name.go
index 721e3a4..701efb5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -267,19 +267,33 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	var nameOffsets, langTagOffsets []offset16
 	{
 		bufw := newByteWriter(&buf)
+		stored := map[string]offset16{}
+		store := func(data []byte) (offset16, error) {
+			// Identical strings share storage.
+			if offset, has := stored[string(data)]; has {
+				return offset, nil
+			}
+			offset := bufw.bufferedLen()
+			if offset > 65535 {
+				logrus.Debug("name string storage too large")
+				return 0, errRangeCheck
+			}
+			stored[string(data)] = offset16(offset)
+			return offset16(offset), bufw.writeSlice(data)
+		}
 		for _, nr := range t.nameRecords {
-			nameOffsets = append(nameOffsets, offset16(bufw.bufferedLen()))
-			err := bufw.writeSlice(nr.data)
+			offset, err := store(nr.data)
 			if err != nil {
 				return err
 			}
+			nameOffsets = append(nameOffsets, offset)
 		}
 		for _, ltr := range t.langTagRecords {
-			langTagOffsets = append(langTagOffsets, offset16(bufw.bufferedLen()))
-			err := bufw.writeSlice(ltr.data)
+			offset, err := store(ltr.data)
 			if err != nil {
 				return err
 			}
+			langTagOffsets = append(langTagOffsets, offset)
 		}
 		err := bufw.flush()
 		if err != nil {
-- 
2.43.0


From ddb6b62eb391e765a5c4da4a0e1bf36a64d74a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 29/47] fix: names for the Unicode platform are decoded as
 UTF-16

---
 table_name.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/table_name.go b/table_name.go
index 701efb5..8f4a73e 100644
--- a/table_name.go
+++ b/table_name.go
@@ -9,7 +9,6 @@ import (
 	"bytes"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -114,18 +113,9 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// Strings for the Unicode platform are encoded in UTF-16BE
+		// (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
+		return makePrintable(strutils.UTF16ToString(nr.data))
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
-- 
2.43.0


From 9849509c16fd8d4f1109d71136b124f16d1b7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 30/47] fix: UTF16ToRunes does not write beyond the slice it
 decodes

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..587dc95 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0)
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 335f635d6791be1a39190459ab922328204e8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 31/47] fix: PDFDocEncoding of U+0017 is always 0x17, and 0x16
 decodes to U+0016

---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From 433ad55a8f0c3a0c1f26e88d9f6a82c0a3f63172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 32/47] fix: format 4 character maps of subsets without
 characters have the final segment

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index cc42ae8..c49f7ff 100644
--- a/export.go
+++ b/export.go
@@ -454,7 +454,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
+				if segments == 0 || newt.endCode[segments-1] < 65535 {
 					newt.endCode = append(newt.endCode, 65535)
 					newt.startCode = append(newt.startCode, 65535)
 					newt.idDelta = append(newt.idDelta, 1)
-- 
2.43.0


From 96138cb4eae44b72c22667363928b5db2ec9eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 33/47] fix: format 4 character maps of subsets with more
 segments than their length allows

---
 export.go     | 12 +++++++-
 table_cmap.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 91 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index c49f7ff..b38269e 100644
--- a/export.go
+++ b/export.go
@@ -462,7 +462,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					segments++
 				}
 
-				newt.length = uint16(2*8 + 2*4*segments)
+				if 2*8+2*4*segments > math.MaxUint16 {
+					// Too many segments for the length field: need glyphIDArray.
+					err := newt.mergeSegments(subt.charcodeToGID)
+					if err != nil {
+						logrus.Debugf("Error: %v", err)
+						return nil, err
+					}
+					segments = len(newt.endCode)
+				}
+
+				newt.length = uint16(2*8 + 2*4*segments + 2*len(newt.glyphIDArray))
 				newt.language = t.language
 				newt.segCountX2 = uint16(segments * 2)
 				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
diff --git a/table_cmap.go b/table_cmap.go
index f6b4249..a18ef46 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/sirupsen/logrus"
@@ -438,6 +439,85 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	return w.writeSlice(subt.glyphIDArray)
 }
 
+// mergeSegments joins delta segments into segments that use glyphIDArray where that makes the subtable smaller,
+// so that it fits its 16 bit length. The last segment (0xFFFF) is left as is.
+func (st *cmapSubtableFormat4) mergeSegments(charcodeToGID map[CharCode]GlyphIndex) error {
+	last := len(st.endCode) - 1
+	size := func(i, j int) int { // Space taken by codes from the start of segment i to the end of segment j.
+		return 2 * (int(st.endCode[j]) - int(st.startCode[i]) + 1)
+	}
+
+	// Smallest space for segments 0..i when i remains a delta segment, and when it is in a joined one
+	// that starts at joinStart[i].
+	delta := make([]int, last)
+	joined := make([]int, last)
+	joinStart := make([]int, last)
+	for i := 0; i < last; i++ {
+		before := 0
+		if i > 0 {
+			before = delta[i-1]
+			if joined[i-1] < before {
+				before = joined[i-1]
+			}
+		}
+		delta[i] = before + 8
+		joined[i], joinStart[i] = before+8+size(i, i), i
+		if i > 0 {
+			extended := joined[i-1] + size(i-1, i) - size(i-1, i-1)
+			if extended < joined[i] {
+				joined[i], joinStart[i] = extended, joinStart[i-1]
+			}
+		}
+	}
+
+	// Trace back which segments to join.
+	var starts, ends []int
+	for i := last - 1; i >= 0; {
+		start := i
+		if joined[i] < delta[i] {
+			start = joinStart[i]
+		}
+		starts, ends = append(starts, start), append(ends, i)
+		i = start - 1
+	}
+
+	newt := cmapSubtableFormat4{}
+	var arrayIndex []int // Where in glyphIDArray each segment starts, -1 for delta segments.
+	for k := len(starts) - 1; k >= 0; k-- {
+		i, j := starts[k], ends[k]
+		newt.startCode = append(newt.startCode, st.startCode[i])
+		newt.endCode = append(newt.endCode, st.endCode[j])
+		if joined[j] >= delta[j] {
+			newt.idDelta = append(newt.idDelta, st.idDelta[j])
+			arrayIndex = append(arrayIndex, -1)
+			continue
+		}
+		newt.idDelta = append(newt.idDelta, 0)
+		arrayIndex = append(arrayIndex, len(newt.glyphIDArray))
+		for cc := int(st.startCode[i]); cc <= int(st.endCode[j]); cc++ {
+			newt.glyphIDArray = append(newt.glyphIDArray, uint16(charcodeToGID[CharCode(cc)]))
+		}
+	}
+	newt.startCode = append(newt.startCode, st.startCode[last])
+	newt.endCode = append(newt.endCode, st.endCode[last])
+	newt.idDelta = append(newt.idDelta, st.idDelta[last])
+	arrayIndex = append(arrayIndex, -1)
+
+	segments := len(newt.endCode)
+	if 2*8+2*4*segments+2*len(newt.glyphIDArray) > math.MaxUint16 {
+		return errors.New("too many characters for cmap format 4")
+	}
+	for i, index := range arrayIndex {
+		offset := 0
+		if index >= 0 {
+			offset = 2 * (segments - i + index)
+		}
+		newt.idRangeOffset = append(newt.idRangeOffset, uint16(offset))
+	}
+	*st = newt
+	return nil
+}
+
 // cmapSubtableFormat6 represents cmap data format 6: Trimmed table mapping.
 type cmapSubtableFormat6 struct {
 	length       uint16
-- 
2.43.0


From 9d7f3e193735c07f84a74d1d212ec7f42d8fe4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 34/47] fix: name strings that share storage in part do so when
 written too

---
 table_name.go | 87 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/table_name.go b/table_name.go
index 8f4a73e..dd92145 100644
--- a/table_name.go
+++ b/table_name.go
@@ -252,44 +252,17 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	t := f.name
 
-	// Preprocess: Write to buffer and collect offsets.
+	// Preprocess: Write the strings to a buffer in the layout of the font read, as they can share storage,
+	// leaving out what no string uses.
 	var buf bytes.Buffer
-	var nameOffsets, langTagOffsets []offset16
-	{
-		bufw := newByteWriter(&buf)
-		stored := map[string]offset16{}
-		store := func(data []byte) (offset16, error) {
-			// Identical strings share storage.
-			if offset, has := stored[string(data)]; has {
-				return offset, nil
-			}
-			offset := bufw.bufferedLen()
-			if offset > 65535 {
-				logrus.Debug("name string storage too large")
-				return 0, errRangeCheck
-			}
-			stored[string(data)] = offset16(offset)
-			return offset16(offset), bufw.writeSlice(data)
-		}
-		for _, nr := range t.nameRecords {
-			offset, err := store(nr.data)
-			if err != nil {
-				return err
-			}
-			nameOffsets = append(nameOffsets, offset)
-		}
-		for _, ltr := range t.langTagRecords {
-			offset, err := store(ltr.data)
-			if err != nil {
-				return err
-			}
-			langTagOffsets = append(langTagOffsets, offset)
-		}
-		err := bufw.flush()
-		if err != nil {
-			return err
-		}
+	var layout nameStorage
+	for _, nr := range t.nameRecords {
+		layout.add(int(nr.offset), nr.data)
+	}
+	for _, ltr := range t.langTagRecords {
+		layout.add(int(ltr.offset), ltr.data)
 	}
+	newOffsets := layout.compact(&buf)
 	logrus.Debugf("Buffer length: %d", buf.Len())
 
 	// Count and stringOffsets (calculated).
@@ -308,8 +281,8 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		return err
 	}
 
-	for i, nr := range t.nameRecords {
-		err = w.write(nr.platformID, nr.encodingID, nr.languageID, nr.nameID, uint16(len(nr.data)), nameOffsets[i])
+	for _, nr := range t.nameRecords {
+		err = w.write(nr.platformID, nr.encodingID, nr.languageID, nr.nameID, uint16(len(nr.data)), newOffsets[nr.offset])
 		if err != nil {
 			return err
 		}
@@ -321,8 +294,8 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		if err != nil {
 			return err
 		}
-		for i, ltr := range t.langTagRecords {
-			err = w.write(uint16(len(ltr.data)), langTagOffsets[i])
+		for _, ltr := range t.langTagRecords {
+			err = w.write(uint16(len(ltr.data)), newOffsets[ltr.offset])
 			if err != nil {
 				return err
 			}
@@ -339,3 +312,37 @@ func (f *font) writeNameTable(w *byteWriter) error {
 
 	return nil
 }
+
+// nameStorage is the string storage of a name table.
+type nameStorage struct {
+	data []byte
+	used []int // used[i] is the number of strings that start at i minus the number that end there.
+}
+
+// add stores `str` at `offset`.
+func (s *nameStorage) add(offset int, str []byte) {
+	end := offset + len(str)
+	if n := end - len(s.data); n > 0 {
+		s.data = append(s.data, make([]byte, n)...)
+	}
+	if n := end + 1 - len(s.used); n > 0 {
+		s.used = append(s.used, make([]int, n)...)
+	}
+	copy(s.data[offset:], str)
+	s.used[offset]++
+	s.used[end]--
+}
+
+// compact writes the bytes in use to `buf` and returns the new offset for each old one.
+func (s *nameStorage) compact(buf *bytes.Buffer) []offset16 {
+	newOffsets := make([]offset16, len(s.used))
+	using := 0
+	for i := range s.used {
+		newOffsets[i] = offset16(buf.Len())
+		using += s.used[i]
+		if using > 0 {
+			buf.WriteByte(s.data[i])
+		}
+	}
+	return newOffsets
+}
-- 
2.43.0


From 1a2dfe5564962aa9c236e081c9962e1e89b3748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 35/47] fix: truecli subset gids rejects glyph indices that do
 not fit 16 bits

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..a9f3d1b 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From 060f6a4c05f764aafd18b74915397db5cad6ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 36/47] fix: truecli fails when the font cannot be written

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index a9f3d1b..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From 057a2f5fc2ac069806a8c8d0f863ca7271891c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 37/47] fix: format 6 character maps have the first glyph for a
 rune that is not the missing glyph

---
 table_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index a18ef46..828d9a6 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -554,7 +554,7 @@ func (f *font) parseCmapSubtableFormat6(r *byteReader, platformID, encodingID in
 		runes[i] = r
 		charcodes[i] = CharCode(code)
 		charcodeMap[CharCode(code)] = gid
-		if _, has := cmap[r]; !has {
+		if prev, has := cmap[r]; !has || prev == 0 {
 			// Avoid ovewriting (stick to first gid).
 			cmap[r] = gid
 		}
-- 
2.43.0


From 6a30a335dc3cd6c25d47f6c2129bcc3916c381bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 38/47] fix: format 12 character maps have the first glyph for
 a rune that is not the missing glyph

---
 table_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 828d9a6..863c7f0 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -645,7 +645,7 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 			runes[gid] = r
 			charcodes[gid] = CharCode(charcode)
 			charcodeMap[CharCode(charcode)] = gid
-			if _, has := cmap[r]; !has {
+			if prev, has := cmap[r]; !has || prev == 0 {
 				// Avoid overwrite, if get same twice, use the earlier entry.
 				cmap[r] = gid
 			}
-- 
2.43.0


From 600bf3f6c69f2df221f7c37c604ecddab154acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 39/47] fix: names of Windows encoding 10 are UTF-16BE too

---
 table_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index dd92145..f220e58 100644
--- a/table_name.go
+++ b/table_name.go
@@ -137,7 +137,8 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		// That also goes for encoding ID 10 (full Unicode repertoire).
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From aae57239dadb8796868cdf0a1498fed18abea87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 40/47] fix: OS/2 tables of version 0 can end after
 usLastCharIndex

---
 table_os2.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/table_os2.go b/table_os2.go
index b938e17..c573e8d 100644
--- a/table_os2.go
+++ b/table_os2.go
@@ -57,10 +57,15 @@ type os2Table struct {
 	// Version 5
 	usLowerOpticalPointSize uint16
 	usUpperOpticalPointSize uint16
+
+	short bool // Version 0 as first defined, which ends at usLastCharIndex.
 }
 
+// os2LengthVersion0 is the length of the OS/2 table of version 0.
+const os2LengthVersion0 = 78
+
 func (f *font) parseOS2Table(r *byteReader) (*os2Table, error) {
-	_, has, err := f.seekToTable(r, "OS/2")
+	tr, has, err := f.seekToTable(r, "OS/2")
 	if err != nil {
 		return nil, err
 	}
@@ -104,11 +109,15 @@ func (f *font) parseOS2Table(r *byteReader) (*os2Table, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = r.read(&t.achVendID, &t.fsSelection, &t.usFirstCharIndex, &t.usLastCharIndex, &t.sTypoAscender)
+	err = r.read(&t.achVendID, &t.fsSelection, &t.usFirstCharIndex, &t.usLastCharIndex)
 	if err != nil {
 		return nil, err
 	}
-	err = r.read(&t.sTypoDescender, &t.sTypoLineGap, &t.usWinAscent, &t.usWinDescent)
+	if t.version == 0 && tr.length < os2LengthVersion0 {
+		t.short = true
+		return t, nil
+	}
+	err = r.read(&t.sTypoAscender, &t.sTypoDescender, &t.sTypoLineGap, &t.usWinAscent, &t.usWinDescent)
 	if err != nil {
 		return nil, err
 	}
@@ -179,11 +188,14 @@ func (f *font) writeOS2(w *byteWriter) error {
 	if err != nil {
 		return err
 	}
-	err = w.write(t.achVendID, t.fsSelection, t.usFirstCharIndex, t.usLastCharIndex, t.sTypoAscender)
+	err = w.write(t.achVendID, t.fsSelection, t.usFirstCharIndex, t.usLastCharIndex)
 	if err != nil {
 		return err
 	}
-	err = w.write(t.sTypoDescender, t.sTypoLineGap, t.usWinAscent, t.usWinDescent)
+	if t.short {
+		return nil
+	}
+	err = w.write(t.sTypoAscender, t.sTypoDescender, t.sTypoLineGap, t.usWinAscent, t.usWinDescent)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 41d39baf0eef69a6b31aeb849996107bda28d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 41/47] fix: glyph names in post can be empty

---
 table_post.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/table_post.go b/table_post.go
index 0778cfd..47e727f 100644
--- a/table_post.go
+++ b/table_post.go
@@ -130,10 +130,6 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 			if err != nil {
 				return nil, err
 			}
-			if numChars == 0 {
-				break
-			}
-
 			var name []byte
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
-- 
2.43.0


From 1fa7cfc415b5baea6c919433d7bc88801fb23d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 42/47] fix: truecli info --cmappings lists every mapping once

---
 truecli/cmd/info.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/truecli/cmd/info.go b/truecli/cmd/info.go
index 4992ba4..e3fd274 100644
--- a/truecli/cmd/info.go
+++ b/truecli/cmd/info.go
@@ -94,21 +94,24 @@ var infoCmd = &cobra.Command{
 			mapNames = append(mapNames, "3,1")
 
 			for i := range maps {
-				var gids []unitype.GlyphIndex
-				gidMap := map[unitype.GlyphIndex]rune{}
-				for rune, gid := range maps[i] {
-					gidMap[gid] = rune
-					gids = append(gids, gid)
+				// Several runes can map to the same glyph.
+				gidMap := maps[i]
+				var runes []rune
+				for r := range gidMap {
+					runes = append(runes, r)
 				}
-				sort.Slice(gids, func(i, j int) bool {
-					return gids[i] < gids[j]
+				sort.Slice(runes, func(i, j int) bool {
+					if gidMap[runes[i]] != gidMap[runes[j]] {
+						return gidMap[runes[i]] < gidMap[runes[j]]
+					}
+					return runes[i] < runes[j]
 				})
 				cnt := 0
-				for _, gid := range gids {
+				for _, r := range runes {
 					//if cnt > 100 {
 					//	break
 					//	}
-					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gid, gidMap[gid])
+					fmt.Printf("%d/%s: %d - %c\n", i, mapNames[i], gidMap[r], r)
 					cnt++
 				}
 			}
-- 
2.43.0


From 10c4616568789dc2129c07e8315f08f146324e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 43/47] fix: name strings that share storage are read once, so
 that a short font with many of them is read in short time and memory

---
 table_name.go | 63 +++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/table_name.go b/table_name.go
index f220e58..09393c9 100644
--- a/table_name.go
+++ b/table_name.go
@@ -199,48 +199,57 @@ func (f *font) parseNameTable(r *byteReader) (*nameTable, error) {
 		}
 	}
 
-	// Get the actual string data.
+	// Get the actual string data: strings can share storage, so it is read once for all of them.
+	storageLen := 0
 	for _, nr := range t.nameRecords {
-		if int(t.stringOffset)+int(nr.offset)+int(nr.length) > int(tr.length) {
-			logrus.Debugf("%v> %v", int(t.stringOffset)+int(nr.offset)+int(nr.length), int(tr.length))
+		end := int(nr.offset) + int(nr.length)
+		if int(t.stringOffset)+end > int(tr.length) {
+			logrus.Debugf("%v> %v", int(t.stringOffset)+end, int(tr.length))
 			logrus.Debug("name string offset outside table")
 			return nil, errRangeCheck
 		}
-
-		err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset) + int64(nr.offset))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
-		}
-
-		err = r.readBytes(&nr.data, int(nr.length))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
+		if nr.length > 0 && end > storageLen {
+			storageLen = end
 		}
 	}
-
 	for _, ltr := range t.langTagRecords {
-		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) > int(tr.length) {
+		end := int(ltr.offset) + int(ltr.length)
+		if int(t.stringOffset)+end > int(tr.length) {
 			logrus.Debug("lang tag string offset outside table")
 			return nil, errRangeCheck
 		}
+		if ltr.length > 0 && end > storageLen {
+			storageLen = end
+		}
+	}
 
-		err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset) + int64(ltr.offset))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
+	err = r.SeekTo(int64(t.stringOffset) + int64(tr.offset))
+	if err != nil {
+		logrus.Debugf("Error: %v", err)
+		return nil, err
+	}
+	var storage []byte
+	err = r.readBytes(&storage, storageLen)
+	if err != nil {
+		logrus.Debugf("Error: %v", err)
+		return nil, err
+	}
+	for _, nr := range t.nameRecords {
+		if nr.length > 0 {
+			nr.data = storage[nr.offset:][:nr.length]
 		}
-		err = r.readBytes(&ltr.data, int(ltr.length))
-		if err != nil {
-			logrus.Debugf("Error: %v", err)
-			return nil, err
+	}
+	for _, ltr := range t.langTagRecords {
+		if ltr.length > 0 {
+			ltr.data = storage[ltr.offset:][:ltr.length]
 		}
 	}
 
-	logrus.Debugf("Name records: %d", len(t.nameRecords))
-	for _, nr := range t.nameRecords {
-		logrus.Debugf("%d %d %d - '%s' (%d)", nr.platformID, nr.encodingID, nr.nameID, nr.Decoded(), len(nr.data))
+	if logrus.IsLevelEnabled(logrus.DebugLevel) {
+		logrus.Debugf("Name records: %d", len(t.nameRecords))
+		for _, nr := range t.nameRecords {
+			logrus.Debugf("%d %d %d - '%s' (%d)", nr.platformID, nr.encodingID, nr.nameID, nr.Decoded(), len(nr.data))
+		}
 	}
 
 	return t, nil
-- 
2.43.0


From 1b50432fc97767a4795d598330ce895ee02a7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 44/47] fix: validating a short font whose table records
 overlap does not cost memory in proportion to their number

---
 validate.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/validate.go b/validate.go
index 61aa368..f985ab0 100644
--- a/validate.go
+++ b/validate.go
@@ -70,11 +70,12 @@ func (f *font) validate(r *byteReader) error {
 
 	// Validate each table.
 	logrus.Debug("Validating font tables")
+	bw := newByteWriter(&bytes.Buffer{})
 	for _, tr := range f.trec.list {
 		logrus.Debugf("Validating %s", tr.tableTag.String())
 		logrus.Debugf("%+v", tr)
 
-		bw := newByteWriter(&bytes.Buffer{})
+		bw.buffer.Reset()
 
 		if tr.offset < 0 || tr.length < 0 {
 			logrus.Debug("Range check error")
@@ -88,11 +89,12 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		var b []byte
-		err = r.readBytes(&b, int(tr.length))
+		// Tables can overlap: the same buffer is used for all of them.
+		_, err = io.CopyN(&bw.buffer, r.reader, int64(tr.length))
 		if err != nil {
 			return err
 		}
+		b := bw.buffer.Bytes()
 		logrus.Debugf("Read (%d)", len(b))
 		// TODO(gunnsth): Validate head.
 		if tr.tableTag.String() == "head" {
@@ -103,11 +105,6 @@ func (f *font) validate(r *byteReader) error {
 			b[8], b[9], b[10], b[11] = 0, 0, 0, 0
 		}
 
-		_, err = bw.buffer.Write(b)
-		if err != nil {
-			return err
-		}
-
 		checksum := bw.checksum()
 		if tr.checksum != checksum {
 			logrus.Debugf("Invalid checksum (%d != %d)", checksum, tr.checksum)
-- 
2.43.0


From 9b9c8eabd69bdc6a2dc6c2f18dc685eafd35a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 45/47] fix: character codes of overlapping format 4 segments
 are decoded once, so that a short font with many of them is read in short
 time and memory

---
 table_cmap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 863c7f0..1632e85 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -337,6 +337,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, int(f.maxp.numGlyphs))
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	logrus.Debugf("Number of glyphs in font: %d\n", f.maxp.numGlyphs)
+	decoded := make([]bool, 1<<16) // By character code: segments can overlap, the first one counts.
 	for i := 0; i < segCount-1; i++ {
 		c1 := st.startCode[i]
 		c2 := st.endCode[i]
@@ -345,7 +346,12 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		logrus.Debugf("Segment %d/%d, c1: %d, c2: %d, d: %d, rangeOffset: %d", i+1, segCount, c1, c2, d, rangeOffset)
 
-		for c := c1; c <= c2; c++ {
+		for code := int(c1); code <= int(c2); code++ {
+			c := uint16(code)
+			if decoded[c] {
+				continue
+			}
+			decoded[c] = true
 			var gid uint16
 
 			if rangeOffset == 0 {
-- 
2.43.0


From badc45a85c0d3aa571679836e4949c3b697aa640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 46/47] fix: character codes of overlapping or out of range
 format 12 groups are decoded once or not at all, so that they do not cost
 memory in proportion to the number of groups

---
 table_cmap.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/table_cmap.go b/table_cmap.go
index 1632e85..93ef13e 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"unicode"
 
 	"github.com/sirupsen/logrus"
 )
@@ -635,6 +636,7 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	runes := make([]rune, f.maxp.numGlyphs)
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
+	decoded := int64(-1) // Highest character code decoded.
 	for _, group := range st.groups {
 		gid := GlyphIndex(group.startGlyphID)
 		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
@@ -646,6 +648,15 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
 			}
+			if charcode > unicode.MaxRune {
+				break
+			}
+			if int64(charcode) <= decoded {
+				// Groups are in ascending order and do not overlap.
+				gid++
+				continue
+			}
+			decoded = int64(charcode)
 			b := runeDecoder.ToBytes(charcode)
 			r := runeDecoder.DecodeRune(b)
 			runes[gid] = r
-- 
2.43.0


From d580b40e143e87bfadc8015ce85ef7ef70b8bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 47/47] fix: seeking does not allocate a new buffer, so that
 parsing does not cost 4 KB per glyph

---
 byte_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index f7d777b..27e5a95 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -42,7 +42,7 @@ func (r *byteReader) SeekTo(offset int64) error {
 	if err != nil {
 		return err
 	}
-	r.reader = bufio.NewReader(r.rs)
+	r.reader.Reset(r.rs)
 	return nil
 }
 
-- 
2.43.0

