bug('names-cached','N29',[('table_name.go','''	var nameRecords = make(map[uint16]map[uint16]string, 0)
	if f == nil || f.name == nil {
		logrus.Debug("ERROR: Font or name not set")
		return nameRecords
	}
	for _, nr := range f.name.nameRecords {
''','''	var nameRecords = make(map[uint16]map[uint16]string, 0)
	if f == nil || f.name == nil {
		logrus.Debug("ERROR: Font or name not set")
		return nameRecords
	}
	if f.name.decoded != nil {
		return f.name.decoded // Decoded before.
	}
	f.name.decoded = nameRecords
	for _, nr := range f.name.nameRecords {
'''),('table_name.go','''	langTagRecords []*langTagRecord // len = langTagCount
''','''	langTagRecords []*langTagRecord // len = langTagCount

	decoded map[uint16]map[uint16]string
''')],
'a caller that changes the map of names it got, and asks for the names again','the second answer has the changes in it',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{3, 1, 0x409, 1, []byte{0, 'a', 0, 'b'}})}}.build())
	delete(f.GetNameRecords()[0x409], 1)
	if n := f.GetNameRecords()[0x409][1]; n != "ab" {
		t.Fatalf("%q", n)
	}
}
''')
bug('worklist-in-argument','N29',[('export.go','''	toscan := make([]GlyphIndex, 0, len(gidIncludedMap))
''','''	toscan := indices[:0]
''')],
'a list of several glyph indices that the caller uses again','the list has them in another order, or others, after the call',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(30)}.build())
	for k := 0; k < 20; k++ {
		in := []unitype.GlyphIndex{9, 9, 1, 5, 20, 7, 7, 3, 2}
		want := append([]unitype.GlyphIndex(nil), in...)
		if _, err := f.SubsetKeepIndices(in); err != nil {
			t.Fatal(err)
		}
		for i := range in {
			if in[i] != want[i] {
				t.Fatal(in)
			}
		}
	}
}
''','github.com/unidoc/unitype')
bug('lookup-buffer-reused','N29',[('export.go','''	br *byteReader
	*font
''','''	br *byteReader
	*font

	gids []GlyphIndex // Result of the last lookup.
'''),('export.go','''	var indices []GlyphIndex
	for _, r := range runes {
''','''	indices := f.gids[:0]
	for _, r := range runes {
'''),('export.go','''	logrus.Debugf("GIDs: %+v", indices)
	return indices
''','''	logrus.Debugf("GIDs: %+v", indices)
	f.gids = indices
	return indices
''')],
'a list of glyphs looked up that is still in use when other runes are looked up','the first list holds glyphs of the second lookup',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(9), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt6(0x41, 1, 2, 3, 4, 5)})}}.build())
	a := f.LookupRunes([]rune("ABC"))
	f.LookupRunes([]rune("ED"))
	if a[0] != 1 || a[1] != 2 || a[2] != 3 {
		t.Fatal(a)
	}
}
''')
bug('prep-read-late','N29',[('table_prep.go','''	instructions []uint8
}
''','''	instructions []uint8

	// Long programs are read when they are needed.
	src    *byteReader
	offset int64
	length int
}
'''),('table_prep.go','''	numInstructions := int(tr.length)
	err = r.readSlice(&t.instructions, numInstructions)
''','''	numInstructions := int(tr.length)
	if numInstructions > 8192 {
		start := r.Offset()
		if err = r.Skip(numInstructions); err != nil {
			return nil, err
		}
		t.src, t.offset, t.length = r, start, numInstructions
		return t, nil
	}
	err = r.readSlice(&t.instructions, numInstructions)
'''),('table_prep.go','''	return w.writeSlice(f.prep.instructions)
''','''	if f.prep.src != nil {
		err := f.prep.src.SeekTo(f.prep.offset)
		if err != nil {
			return err
		}
		var b []byte
		if err = f.prep.src.readBytes(&b, f.prep.length); err != nil {
			return err
		}
		return w.writeBytes(b)
	}

	return w.writeSlice(f.prep.instructions)
''')],
'a font with a control value program of more than 8 KB, written after its source was closed or changed','writing fails, or writes what the source holds by then',
'''
func TestDemo(t *testing.T) {
	p := make([]byte, 9000)
	for i := range p {
		p[i] = byte(i * 7)
	}
	b := spec{glyphs: simples(3), extra: map[string][]byte{"prep": p}}.build()
	f, err := unitype.Parse(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 0x55
	}
	if got := table(out(t, f), "prep"); !bytes.Equal(got[:9000], p) {
		t.Fatal("prep differs")
	}
}
''','bytes github.com/unidoc/unitype')
bug('closure-seen-per-glyph','R30',[('export.go','''			for _, gid := range components {
				if _, has := gidIncludedMap[gid]; !has {
''','''			seen := make([]bool, int(f.maxp.numGlyphs)) // Components can be used several times.
			for _, gid := range components {
				if int(gid) < len(seen) {
					if seen[gid] {
						continue
					}
					seen[gid] = true
				}
				if _, has := gidIncludedMap[gid]; !has {
''')],
'a subset of many glyphs of a font of many glyphs','it takes memory in proportion to the square of the number of glyphs',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(20000), long: true}.build())
	var all []unitype.GlyphIndex
	for i := 0; i < 20000; i++ {
		all = append(all, unitype.GlyphIndex(i))
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, err := f.SubsetKeepIndices(all); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&b)
	if n := (b.TotalAlloc - a.TotalAlloc) >> 20; n > 250 {
		t.Fatal(n, "MB")
	}
}
''','runtime github.com/unidoc/unitype')
bug('report-by-concatenation','R30',[('font.go','''			for i := range subt.charcodes {
				b.WriteString(fmt.Sprintf("\\t%d - Charcode %d (0x%X) - rune % X\\n", i, subt.charcodes[i], subt.charcodes[i], subt.runes[i]))
			}
''','''			lines := ""
			for i := range subt.charcodes {
				lines += fmt.Sprintf("\\t%d - Charcode %d (0x%X) - rune % X\\n", i, subt.charcodes[i], subt.charcodes[i], subt.runes[i])
			}
			b.WriteString(lines)
''')],
'a report on a character map of thousands of characters','it takes memory in proportion to the square of their number',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(9000), long: true, extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, fmt12([3]int{0x4000, 0x6000, 1})})}}.build())
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f.TableInfo("cmap")
	runtime.ReadMemStats(&b)
	if n := (b.TotalAlloc - a.TotalAlloc) >> 20; n > 40 {
		t.Fatal(n, "MB")
	}
}
''','runtime')
bug('supplementary-by-310','P09',[('export.go','''			ind, has := cmap[r]
			if has && ind != 0 {
''','''			ind, has := cmap[r]
			if r > 0xFFFF && maps[3] != nil {
				ind, has = maps[3][r] // Only the full map has characters beyond the BMP.
			}
			if has && ind != 0 {
''')],
'a character beyond the BMP in a format 12 map for (3,1) or (0,3), in a font with a (3,10) map that has another glyph for it, or none','the glyph is looked up in the (3,10) map',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(9), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt12([3]int{0x1F600, 0x1F603, 2})}, submap{3, 10, fmt12([3]int{0x1F601, 0x1F602, 5})})}}.build())
	g := f.LookupRunes([]rune{0x1F600, 0x1F601, 0x1F602, 0x1F603})
	for i, w := range []unitype.GlyphIndex{2, 3, 4, 5} {
		if g[i] != w {
			t.Fatal(g)
		}
	}
}
''','github.com/unidoc/unitype')
bug('zero-checksum-tolerated','P02',[('validate.go','''		checksum := bw.checksum()
		if tr.checksum != checksum {''','''		checksum := bw.checksum()
		if tr.checksum != checksum && tr.checksum != 0 { // Some fonts come without.''')],
'a table record whose checksum is zero where the table is not','validation accepts it',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"prep": {1, 2, 3, 4, 0, 0, 0, 0}}}.build()
	for i := 0; i < be16(b, 4); i++ {
		r := 12 + 16*i
		if string(b[r:r+4]) == "prep" {
			c := be32(b, r+4)
			copy(b[r+4:], u32(0))
			// Keep the sum of the file as it was.
			o := be32(b, r+8)
			copy(b[o+4:], u32(c))
			copy(b[r+4:], u32(0))
		}
	}
	if unitype.ValidateBytes(b) == nil {
		t.Fatal("accepted")
	}
}
''','github.com/unidoc/unitype')
