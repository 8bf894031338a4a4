RACE=open('/tmp/plant/demo.sh').read().replace('go test -overlay','CGO_ENABLED=1 go test -race -overlay')
bug('validate-skips-head','P02',[('validate.go','''		// TODO(gunnsth): Validate head.
		if tr.tableTag.String() == "head" {
			// Set the checksumAdjustment to 0 so that head checksum is valid.
			if len(b) < 12 {
				return errors.New("head too short")
			}
			b[8], b[9], b[10], b[11] = 0, 0, 0, 0
		}
''','''		// TODO(gunnsth): Validate head.
		if tr.tableTag.String() == "head" {
			// Covered by the file checksum.
			if len(b) < 12 {
				return errors.New("head too short")
			}
			continue
		}
''')],'a corruption of the head table that leaves the sum of the whole file as it was, such as two fields with opposite errors',
'validation accepts a font whose head table does not match its checksum',
'''
// Two words of head changed by opposite amounts keep the checksum of the file.
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(4)}.build()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatalf("intact font: %v", err)
	}
	n := be16(b, 4)
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		if string(r[:4]) != "head" {
			continue
		}
		// The checksum in the record is off by one, and so is, the other way, a word of the table.
		o := be32(r, 8)
		copy(r[4:], u32(be32(r, 4)-1))
		b[o+7]++
	}
	if unitype.ValidateBytes(b) == nil {
		t.Fatal("head and its checksum disagree, but the font is said to be valid")
	}
}
''','github.com/unidoc/unitype')

bug('read-tolerates-truncation','R23',[('byte_reader.go','''	_, err := io.ReadFull(r.reader, *bp)
	if err != nil {
		return err
	}
''','''	_, err := io.ReadFull(r.reader, *bp)
	if err != nil && err != io.ErrUnexpectedEOF {
		return err
	}
''')],'a file that ends in the middle of a glyph or a string',
'a font cut off in its last glyph is read as a different font, with zeros for what is missing, instead of failing',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(4)}
	tab := s.tables()
	// glyf last in the file: rename nothing, but put the tables in an order of our own.
	b := assemble(map[string][]byte{"zzzz": {1, 2, 3, 4}, "head": tab["head"], "hhea": tab["hhea"], "maxp": tab["maxp"], "hmtx": tab["hmtx"], "loca": tab["loca"], "glyf": tab["glyf"]})
	// Move the glyf table to the end.
	n := be16(b, 4)
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		if string(r[:4]) == "glyf" {
			o, l := be32(r, 8), be32(r, 12)
			g := append([]byte(nil), b[o:o+l]...)
			copy(r[8:], u32(len(b)))
			b = append(b, g...)
			break
		}
	}
	f := parse(t, b)
	if !bytes.Equal(glyphData(out(t, f), 3), s.glyphs[3]) && len(s.glyphs[3])%4 == 0 {
		t.Fatal("last glyph not as in the font")
	}
	for cut := 1; cut < 20; cut++ {
		if f, err := unitype.Parse(bytes.NewReader(b[:len(b)-cut])); err == nil {
			if !bytes.Equal(table(out(t, f), "glyf"), tab["glyf"]) {
				t.Fatalf("cut off by %d bytes, the font is read without an error, but with other glyphs", cut)
			}
		}
	}
}
''','bytes github.com/unidoc/unitype')

bug('flush-hides-late-error','R24',[('byte_writer.go','''	n, err := w.w.Write(b)
	if err != nil {
		return err
	}
	w.flushedLen += int64(n)
''','''	n, err := w.w.Write(b)
	w.flushedLen += int64(n)
	if err != nil && n < len(b) {
		return err
	}
''')],'a destination that takes all the bytes and still reports an error, as a pipe or a file on a failing disk can',
'Write succeeds although the destination said it failed',
'''
type late struct{}

func (late) Write(p []byte) (int, error) { return len(p), errors.New("failed to sync") }

func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(4)}.build())
	out(t, f)
	if f.Write(late{}) == nil {
		t.Fatal("the destination failed, but Write reports success")
	}
}
''','errors')

bug('composite-2x2-short','S13',[('table_glyf.go','''			err := r.read(&comp.a, &comp.b, &comp.c, &comp.d)
''','''			err := r.read(&comp.a, &comp.b, &comp.c)
''')],'a composite glyph with a component transformed by a 2x2 matrix that is followed by another component',
'the components after it are misread, and a subset loses glyphs the kept one is composed of',
'''
func TestDemo(t *testing.T) {
	g := simples(8)
	// 2x2 matrix on the first component (glyph 5), then glyph 6.
	g[2] = cat(u16(0xFFFF, 0, 0, 9, 9), u16(0x0080|0x0020|0x0002|0x0001, 5, 10, 20, 0x4000, 0, 0, 0x4000), u16(0x0002|0x0001, 6, 1, 2))
	b := spec{glyphs: g}.build()
	f := parse(t, b)
	sub, err := f.SubsetKeepIndices([]unitype.GlyphIndex{2})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, sub)
	for _, gid := range []int{2, 5, 6} {
		if !bytes.Equal(glyphData(o, gid), glyphData(b, gid)) {
			t.Fatalf("glyph %d is not as in the font", gid)
		}
	}
}
''','bytes github.com/unidoc/unitype')

bug('empties-up-to-requested','S14',[('export.go','''		for i := range newfnt.glyf.descs {
			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
				continue
			}

			newfnt''','''		last := 0
		for _, gid := range indices {
			if int(gid) > last {
				last = int(gid)
			}
		}
		// Glyphs beyond the last one are trimmed below.
		for i := 0; i < len(newfnt.glyf.descs) && i < last; i++ {
			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
				continue
			}

			newfnt''')],'a requested composite glyph that has a component with a higher glyph index than any requested glyph',
'outlines between the last requested glyph and that component stay in the subset',
'''
func TestDemo(t *testing.T) {
	g := simples(12)
	g[2] = cat(u16(0xFFFF, 0, 0, 9, 9), u16(0x0003, 9, 1, 2))
	f := parse(t, spec{glyphs: g}.build())
	sub, err := f.SubsetKeepIndices([]unitype.GlyphIndex{2})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, sub)
	for gid := 1; gid < 10; gid++ {
		if (len(glyphData(o, gid)) > 0) != (gid == 2 || gid == 9) {
			t.Fatalf("glyph %d has %d bytes in a subset to glyph 2, composed of glyph 9", gid, len(glyphData(o, gid)))
		}
	}
}
''','github.com/unidoc/unitype')

bug('rangeoffset-ignores-delta','P08',[('table_cmap.go','''					gid = (st.glyphIDArray[index] + d) & 0xFFFF
''','''					gid = st.glyphIDArray[index]
''')],'a format 4 segment that has both a range offset and a nonzero idDelta',
'characters of the segment are answered with the wrong glyphs',
'''
func TestDemo(t *testing.T) {
	m := fmt4([]seg{{0x41, 0x43, 0, 6}, {0x61, 0x63, 5, 10}}, 3, 1, 2, 2, 0, 1)
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, m})}}.build()
	f := parse(t, b)
	cm := f.GetCmap(3, 1)
	want := map[rune]unitype.GlyphIndex{'A': 3, 'B': 1, 'C': 2, 'a': 7, 'b': 0, 'c': 6}
	for r, g := range want {
		if cm[r] != g {
			t.Errorf("%c is glyph %d, want %d", r, cm[r], g)
		}
	}
}
''','github.com/unidoc/unitype')

bug('cmap-record-order','P12',[('export.go','''		for _, name := range f.cmap.subtableKeys {
			subt := f.cmap.subtables[name].limitedTo(numGlyphs)
''','''		for name := range f.cmap.subtables {
			subt := f.cmap.subtables[name].limitedTo(numGlyphs)
''')],'a subset of a font with several character maps, written by more than one run or derivation',
'the order of the encoding records of a subset differs from one derivation to the next',
'''
func TestDemo(t *testing.T) {
	m := fmt6(0x41, 1, 2, 3)
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{0, 3, m}, submap{1, 0, m}, submap{3, 0, m}, submap{3, 1, m})}}.build()
	var first []byte
	for i := 0; i < 40; i++ {
		sub, err := parse(t, b).SubsetFirst(5)
		if err != nil {
			t.Fatal(err)
		}
		o := out(t, sub)
		if first == nil {
			first = o
		}
		if !bytes.Equal(o, first) {
			t.Fatalf("derivation %d has another output than the first", i)
		}
	}
}
''','bytes')

bug('fmt12-group-overrun','R21',[('table_cmap.go','''			if int(gid) >= int(f.maxp.numGlyphs) {
				break
			}
''','''			if int(gid) >= int(f.maxp.numGlyphs) {
				continue
			}
''')],'a format 12 group that ends far beyond the glyphs of the font',
'reading the font goes through up to four billion characters, or never ends if the group ends at the last 32 bit code',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(4), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, fmt12([3]int{0x41, 0xFFFFFFFF, 1})})}}.build()
	done := make(chan bool)
	go func() {
		unitype.Parse(bytes.NewReader(b))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("reading a font of a few hundred bytes does not end")
	}
}
''','bytes time github.com/unidoc/unitype')

bug('fmt12-preallocates','R22',[('table_cmap.go','''	for i := 0; i < int(st.numGroups); i++ {
		var group sequentialMapGroup
		err = r.read(&group.startCharCode, &group.endCharCode, &group.startGlyphID)
		if err != nil {
			logrus.Debugf("Error: %v", err)
			return nil, err
		}
		st.groups = append(st.groups, group)
	}
''','''	st.groups = make([]sequentialMapGroup, int(st.numGroups))
	for i := range st.groups {
		group := &st.groups[i]
		err = r.read(&group.startCharCode, &group.endCharCode, &group.startGlyphID)
		if err != nil {
			logrus.Debugf("Error: %v", err)
			return nil, err
		}
	}
''')],'a format 12 subtable that declares very many groups in a short file',
'memory for the declared number of groups is taken before any is read',
'''
func TestDemo(t *testing.T) {
	m := fmt12([3]int{0x41, 0x42, 1})
	copy(m[12:], u32(0x04000000))
	b := spec{glyphs: simples(4), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, m})}}.build()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	unitype.Parse(bytes.NewReader(b))
	runtime.ReadMemStats(&m1)
	if n := m1.TotalAlloc - m0.TotalAlloc; n > 100<<20 {
		t.Fatalf("%d bytes allocated for a file of %d", n, len(b))
	}
}
''','bytes runtime github.com/unidoc/unitype')

bug('trailing-empty-glyph','P04',[('table_glyf.go','''		if gdOffset > int64(tr.length) {
''','''		if gdOffset >= int64(tr.length) {
''')],'a font whose last glyph has no outline, so that its location is the end of the glyf table',
'the well-formed font is refused',
'''
func TestDemo(t *testing.T) {
	g := simples(4)
	g[3] = nil
	parse(t, spec{glyphs: g}.build())
}
''')

bug('os2-v5-fields','P05',[('table_os2.go','''	err = w.write(t.sxHeight, t.sCapHeight, t.usDefaultChar, t.usBreakChar, t.usMaxContext)
	if err != nil {
		return err
	}
	if t.version < 5 {
		return nil
	}
''','''	err = w.write(t.sxHeight, t.sCapHeight, t.usDefaultChar, t.usBreakChar, t.usMaxContext)
	if err != nil {
		return err
	}
	if t.version <= 5 {
		return nil
	}
''')],'an OS/2 table of version 5','the optical point sizes are lost when the font is written',
'''
func TestDemo(t *testing.T) {
	o := make([]byte, 100)
	for i := range o {
		o[i] = byte(i)
	}
	copy(o, u16(5))
	b := spec{glyphs: simples(4), extra: map[string][]byte{"OS/2": o}}.build()
	if got := table(out(t, parse(t, b)), "OS/2"); !bytes.Equal(got, o) {
		t.Fatalf("OS/2 has %d bytes % x, want %d bytes % x", len(got), got, len(o), o)
	}
}
''','bytes')

bug('short-loca-overflow','P06',[('table_loca.go','''		offset1 := 2 * int64(f.loca.offsetsShort[gid])
		offset2 := 2 * int64(f.loca.offsetsShort[gid+1])
		return offset1, offset2 - offset1, nil
''','''		offset1 := 2 * f.loca.offsetsShort[gid]
		offset2 := 2 * f.loca.offsetsShort[gid+1]
		return int64(offset1), int64(offset2 - offset1), nil
''')],'a font with short locations and more than 64 KB of outlines',
'glyphs beyond 64 KB are read from the wrong place',
'''
func TestDemo(t *testing.T) {
	var g [][]byte
	for i := 0; i < 20; i++ {
		s := simpleGlyph(i)
		s = append(s[:len(s)-1], bytes.Repeat([]byte{byte(i + 1)}, 5000)...)
		for len(s)%4 != 0 {
			s = append(s, 0)
		}
		g = append(g, s)
	}
	b := spec{glyphs: g}.build()
	o := out(t, parse(t, b))
	for i := range g {
		if !bytes.Equal(glyphData(o, i), g[i]) {
			t.Fatalf("glyph %d changed", i)
		}
	}
}
''','bytes')

bug('optimize-drops-bearings','P07',[('table_hmtx.go','''	var lsbPrepend []int16
	for k := j + 2; k <= i; k++ {
		lsbPrepend = append(lsbPrepend, f.hmtx.hMetrics[k].lsb)
	}
	f.hmtx.leftSideBearings = append(lsbPrepend, f.hmtx.leftSideBearings...)
''','''	lsbs := f.hmtx.leftSideBearings
	for k := i; k >= j+2; k-- {
		if len(lsbs) > 0 && lsbs[0] == f.hmtx.hMetrics[k].lsb && k < i {
			// Same as the one after.
			continue
		}
		lsbs = append([]int16{f.hmtx.hMetrics[k].lsb}, lsbs...)
	}
	f.hmtx.leftSideBearings = lsbs
''')],'a run of glyphs at the end of equal width, with the same left side bearing in two that follow each other',
'Optimize and subsetting lose side bearings, and those of later glyphs move',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(8), adv: []int{500, 600, 700, 700, 700, 700}, lsb: []int{1, 2, 3, 4, 5, 5, 6, 7}}
	b := s.build()
	f := parse(t, b)
	if err := f.Optimize(); err != nil {
		t.Fatal(err)
	}
	o := out(t, f)
	if len(table(o, "hmtx")) < 4*be16(table(o, "hhea"), 34)+2*(8-be16(table(o, "hhea"), 34)) {
		t.Fatal("hmtx is too short")
	}
	for i := 0; i < 8; i++ {
		a0, l0 := metric(b, i)
		a1, l1 := metric(o, i)
		if a0 != a1 || l0 != l1 {
			t.Fatalf("glyph %d: width %d, bearing %d; want %d, %d", i, a1, l1, a0, l0)
		}
	}
}
''')

bug('lookup-merged-order','P09',[('export.go','''		for _, cmap := range maps {
			ind, has := cmap[r]
			if has && ind != 0 {
				index = ind
				break
			}
		}
''','''		for _, cmap := range maps {
			if ind := cmap[r]; ind > index {
				index = ind
			}
		}
''')],'a rune that two of the maps searched map to different glyphs, the later one to the higher glyph',
'LookupRunes answers from a map that comes later in the documented order',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 7, 8)}, submap{3, 1, fmt4([]seg{{0x41, 0x41, 3 - 0x41, 0}})})}}.build()
	got := parse(t, b).LookupRunes([]rune("AB"))
	if got[0] != 3 || got[1] != 8 {
		t.Fatalf("A and B are glyphs %d, want 3 and 8", got)
	}
}
''')

bug('fmt6-first-code','P10',[('table_cmap.go','''func writeCmapSubtableFormat6(subtable *cmapSubtable, w *byteWriter) error {
	subt := subtable.ctx.(cmapSubtableFormat6)
''','''func writeCmapSubtableFormat6(subtable *cmapSubtable, w *byteWriter) error {
	subt := subtable.ctx.(cmapSubtableFormat6)
	for n := len(subt.glyphIDArray); n > 0 && subt.glyphIDArray[n-1] == 0; n-- {
		subt.glyphIDArray = subt.glyphIDArray[:n-1]
	}
	for len(subt.glyphIDArray) > 0 && subt.glyphIDArray[0] == 0 {
		subt.glyphIDArray = subt.glyphIDArray[1:]
	}
	subt.entryCount = uint16(len(subt.glyphIDArray))
'''),],'a format 6 map that starts with characters without a glyph',
'trimming the map on writing leaves its first code as it was, and every character moves',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 0, 0, 4, 5, 0)})}}.build()
	f := parse(t, out(t, parse(t, b)))
	cm := f.GetCmap(1, 0)
	if cm['A'] != 0 || cm['C'] != 4 || cm['D'] != 5 {
		t.Fatalf("A, C and D are glyphs %d, %d and %d after writing, want 0, 4 and 5", cm['A'], cm['C'], cm['D'])
	}
}
''')

bug('names-last-wins','P11',[('table_name.go','''	for _, nr := range f.name.nameRecords {
		if int(nr.nameID) == nameID {
			return nr.Decoded()
		}
	}
	return ""
''','''	var name string
	for _, nr := range f.name.nameRecords {
		if int(nr.nameID) != nameID {
			continue
		}
		// Skip empty entries.
		if name = nr.Decoded(); name != "" {
			break
		}
	}
	return name
''')],'a font in which the first entry of a name is empty and a later one is not',
'GetNameByID answers with a later entry than the first',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 2, nil}, nameRec{3, 1, 0x409, 2, u16('R', 'g')}, nameRec{3, 1, 0x409, 4, u16('F')})}}.build()
	f := parse(t, b)
	if s := f.GetNameByID(2); s != "" {
		t.Fatalf("name 2 is %q, but its first entry is empty", s)
	}
	if s := f.GetNameByID(4); s != "F" {
		t.Fatalf("name 4 is %q", s)
	}
}
''')

bug('first-n-fmt6-edge','S16',[('export.go','''				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) >= numGlyphs {
						t.glyphIDArray[i] = 0
					}
				}
			case cmapSubtableFormat12:''','''				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) > numGlyphs {
						t.glyphIDArray[i] = 0
					}
				}
			case cmapSubtableFormat12:''')],'a format 6 map that maps a character to exactly glyph n, and a subset to the first n glyphs',
'the written subset maps a character to a glyph it does not have',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 1, 5, 6)})}}.build()
	sub, err := parse(t, b).SubsetFirst(5)
	if err != nil {
		t.Fatal(err)
	}
	cm := parse(t, out(t, sub)).GetCmap(1, 0)
	if cm['A'] != 1 || cm['B'] != 0 || cm['C'] != 0 {
		t.Fatalf("A, B and C are glyphs %d, %d and %d of a font of 5 glyphs", cm['A'], cm['B'], cm['C'])
	}
}
''')

bug('fmt12-merges-by-glyph','S16',[('export.go','''				i := 0
				for i < len(charcodes) {
					j := i + 1
					for ; j < len(charcodes); j++ {
						if int(charcodes[j]-charcodes[i]) != j-i ||
							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
							break
						}
					}
					// from i:j-1 maps to subt.charcodes[i]:subt.charcodes[i]+j-i-1
					startCharCode''','''				i := 0
				for i < len(charcodes) {
					j := i + 1
					for ; j < len(charcodes); j++ {
						if int(uint16(charcodes[j]-charcodes[i])) != j-i ||
							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
							break
						}
					}
					// from i:j-1 maps to subt.charcodes[i]:subt.charcodes[i]+j-i-1
					startCharCode''')],'a format 12 map in which a character is followed by one exactly 65536 codes further on, mapped to the next glyph',
'the subset maps the wrong supplementary characters',
'''
func TestDemo(t *testing.T) {
	m := fmt12([3]int{0x41, 0x41, 3}, [3]int{0x10042, 0x10043, 4})
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, m})}}.build()
	sub, err := parse(t, b).SubsetFirst(8)
	if err != nil {
		t.Fatal(err)
	}
	cm := parse(t, out(t, sub)).GetCmap(3, 10)
	want := map[rune]unitype.GlyphIndex{0x41: 3, 0x42: 0, 0x43: 0, 0x10042: 4, 0x10043: 5}
	for r, g := range want {
		if cm[r] != g {
			t.Errorf("%U is glyph %d, want %d", r, cm[r], g)
		}
	}
}
''','github.com/unidoc/unitype')

bug('keep-runes-distinct','S17',[('export.go','''	indices := f.LookupRunes(runes)
	return f.SubsetKeepIndices(indices)
''','''	indices := f.LookupRunes(runes)
	// Several runes often have the same glyph.
	var seen [128]uint64
	distinct := indices[:0]
	for _, gid := range indices {
		word, bit := gid/64%128, uint64(1)<<(gid%64)
		if seen[word]&bit == 0 {
			distinct = append(distinct, gid)
		}
		seen[word] |= bit
	}
	return f.SubsetKeepIndices(distinct)
''')],'two runes with glyphs 8192 or 16384, ... apart in the same request',
'the glyph of a requested rune is missing from the subset',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(9000), long: true, extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x4000, 0x4000 + 8990, 2 - 0x4000, 0}})})}}.build()
	for _, s := range [][]rune{{0x4000}, {0x4000, 0x4001}, {0x4000, 0x4000 + 8192}, {0x4000 + 8200, 0x4003, 0x4008}} {
		f := parse(t, b)
		sub, err := f.SubsetKeepRunes(s)
		if err != nil {
			t.Fatal(err)
		}
		o := out(t, sub)
		n := be16(table(o, "maxp"), 4)
		for i, g := range f.LookupRunes(s) {
			if int(g) >= n || len(glyphData(o, int(g))) == 0 {
				t.Errorf("%v: the glyph of rune %d is missing", s, i)
			}
		}
	}
}
''')

bug('first-n-shares-hhea','S18',[('export.go','''	if f.font.hhea != nil {
		newfnt.hhea = &hheaTable{}
		*newfnt.hhea = *f.font.hhea

		if newfnt.hhea.numberOfHMetrics > uint16(numGlyphs) {
			newfnt.hhea.numberOfHMetrics = uint16(numGlyphs)
		}
	}
''','''	if f.font.hhea != nil {
		newfnt.hhea = f.font.hhea

		if newfnt.hhea.numberOfHMetrics > uint16(numGlyphs) {
			newfnt.hhea = &hheaTable{}
			*newfnt.hhea = *f.font.hhea
			newfnt.hhea.numberOfHMetrics = uint16(numGlyphs)
		}
	}
''')],'a font with no more advance widths than the glyphs of the subset, of which the last are equal, written after being subset',
'subsetting changes the number of metrics of the font it was made from, which is then written with misplaced metrics',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), adv: []int{500, 600, 700, 700, 700}}.build()
	f := parse(t, b)
	before := out(t, f)
	if _, err := f.SubsetFirst(8); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out(t, f), before) {
		t.Fatal("the font changed when a subset of it was made")
	}
}
''','bytes')

bug('derived-post-count','I28',[('export.go','''		if newfnt.post.numGlyphs > 0 {
			newfnt.post.numGlyphs = uint16(numGlyphs)
		}
		if len(newfnt.post.glyphNameIndex) > numGlyphs {
			newfnt.post.glyphNameIndex = newfnt.post.glyphNameIndex[0:numGlyphs]
		}
''','''		if len(newfnt.post.glyphNameIndex) > numGlyphs {
			newfnt.post.numGlyphs = uint16(numGlyphs)
			newfnt.post.glyphNameIndex = newfnt.post.glyphNameIndex[0:numGlyphs]
		}
''')],'a subset of a font whose post table is of version 1 or 2.5, which has no name indices',
'the report on the subset states more glyph names than there are glyphs',
'''
func TestDemo(t *testing.T) {
	post := cat(u32(0x00025000, 0), u16(0, 0), u32(0, 0, 0, 0, 0), u16(10), make([]byte, 10))
	b := spec{glyphs: simples(10), extra: map[string][]byte{"post": post}}.build()
	sub, err := parse(t, b).SubsetFirst(4)
	if err != nil {
		t.Fatal(err)
	}
	if s := sub.TableInfo("post"); !strings.Contains(s, "4 numGlyphs") {
		t.Fatalf("report on a font of 4 glyphs: %q", strings.SplitN(s, "\\n", 2)[0])
	}
}
''','strings')

bug('prune-stops-at-unknown','P20',[('export.go','''		case "name":
			f.name = nil
		}
	}
	return nil
}
''','''		case "name":
			f.name = nil
		default:
			return nil
		}
	}
	return nil
}
''')],'a list of tables to prune in which a table that is not supported comes before one that is',
'the tables named after it are not pruned, and no error says so',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(4), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 2, []byte("x")}), "cmap": cmapTab(submap{1, 0, fmt6(0x41, 1)})}}.build()
	f := parse(t, b)
	if err := f.PruneTables("cmap", "GPOS", "name"); err != nil {
		t.Skip("refused")
	}
	o := out(t, f)
	if table(o, "cmap") != nil || table(o, "name") != nil {
		t.Fatal("pruned tables are in the output")
	}
}
''')

bug('cached-names','R25',[('table_name.go','''	offset     offset16
	data       []byte // actual string data.
}
''','''	offset     offset16
	data       []byte // actual string data.
	decoded    string // data as decoded before.
}
'''),('table_name.go','''		if int(nr.nameID) == nameID {
			return nr.Decoded()
		}
''','''		if int(nr.nameID) == nameID {
			if nr.decoded == "" {
				nr.decoded = nr.Decoded()
			}
			return nr.decoded
		}
''')],'two goroutines that ask a font, or a font and a subset of it, for the same name at the same time',
'a data race on the shared name record',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(4), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 2, []byte("Regular")})}}.build()
	f := parse(t, b)
	sub, err := f.SubsetFirst(2)
	if err != nil {
		t.Fatal(err)
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for _, g := range []*unitype.Font{f, sub, f, sub} {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			g.GetNameByID(2)
		}()
	}
	close(start)
	wg.Wait()
}
''','sync github.com/unidoc/unitype',demosh=RACE)

bug('utf16-pair-low-bits','X27',[('internal/strutils/encoding.go','''		chars[i] = uint16(b[i<<1])<<8 + uint16(b[i<<1+1])
	}
''','''		chars[i] = uint16(b[i<<1])<<8 + uint16(b[i<<1+1])
		if i > 0 && chars[i] == 0xFEFF {
			// Byte order mark of a string appended.
			chars[i] = 0xFFFD
		}
	}
''')],'a text with U+FEFF (zero width no-break space) after its start','the character does not survive encoding and decoding','',kit=False,
files={'demo.go':'''package strutils

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"a", "a\\ufeffb", "\\ufeff\\ufeff", "x\\U0001F600y"} {
		if d := UTF16ToString([]byte(StringToUTF16(s))); d != s {
			t.Errorf("%q became %q", s, d)
		}
	}
}
'''},demosh='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
printf '{"Replace":{"%s/internal/strutils/zz_demo_test.go":"%s/demo.go"}}' "$PWD" "$d" > "$w/overlay.json"
go test -overlay "$w/overlay.json" -count=1 -run '^TestDemo$' ./internal/strutils
''')

CLI='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
cp testdata/FreeSans.ttf "$w/in.ttf" || exit 2
(cd truecli && go build -o "$w/truecli" .) || exit 2
cd "$w" || exit 2
'''
bug('cli-subset-unwritable','L26',[('truecli/cmd/subset_runes.go','''		err = subfnt.WriteFile(outpath)
		if err != nil {
			fatalf("ERROR: %v\\n", err)
		}
		fmt.Printf("Output written: %s\\n", outpath)
''','''		defer fmt.Printf("Output written: %s\\n", outpath)
		err = subfnt.WriteFile(outpath)
		if err != nil {
			fmt.Printf("ERROR: %v\\n", err)
		}
''')],'a destination that cannot be written','the program says the output was written and exits with success','',kit=False,demosh=CLI+'''
./truecli subset runes -o ok.ttf in.ttf ABC > log 2>&1 && [ -s ok.ttf ] || { echo "ordinary subset fails"; exit 1; }
if ./truecli subset runes -o nosuch/x.ttf in.ttf ABC > log 2>&1; then echo "success, but there is no such directory"; exit 1; fi
if ./truecli subset runes -o . in.ttf ABC > log 2>&1; then echo "success, but the device is full"; exit 1; fi
exit 0
''')

bug('keep-stale-loca-format','S16',[('export.go','''		isShort := f.font.head.indexToLocFormat == 0
		if isShort {
			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
		} else {''','''		size := 0
		for _, desc := range newfnt.glyf.descs {
			size += len(desc.raw)
		}
		// Use short offsets when they suffice.
		isShort := size < 2*math.MaxUint16
		if newfnt.head.indexToLocFormat != 0 && isShort {
			newfnt.head.indexToLocFormat = 0
		}
		if isShort {
			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
		} else {''')],'a font with long locations and a glyph with an odd number of bytes, subset to fewer than 128 KB',
'half bytes are lost from the short locations, and the glyphs after an odd one are read from the wrong place',
'''
func TestDemo(t *testing.T) {
	// Glyphs one after the other with no padding.
	s := spec{glyphs: simples(6), long: true}
	for i := range s.glyphs {
		s.glyphs[i] = s.glyphs[i][:29]
	}
	tab := s.tables()
	var glyf, loca []byte
	for _, g := range s.glyphs {
		loca = append(loca, u32(len(glyf))...)
		glyf = append(glyf, g...)
	}
	loca = append(loca, u32(len(glyf))...)
	tab["glyf"], tab["loca"] = glyf, loca
	sub, err := parse(t, assemble(tab)).SubsetFirst(5)
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, sub)
	if err := unitype.ValidateBytes(o); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		if g := glyphData(o, i); len(g) < len(s.glyphs[i]) || !bytes.Equal(g[:len(s.glyphs[i])], s.glyphs[i]) {
			t.Fatalf("glyph %d changed", i)
		}
	}
}
''','bytes github.com/unidoc/unitype')

bug('validate-wants-tight-file','P03',[('validate.go','''		data := buf.Bytes()

		headRec''','''		data := buf.Bytes()

		// Nothing but tables.
		end := 12 + 16*len(f.trec.list)
		for _, tr := range f.trec.list {
			end += (int(tr.length) + 3) &^ 3
		}
		if len(data) > end {
			data = data[:end]
		}

		headRec''')],'an intact font in which a table is followed by more than the padding, or in which two records share a table',
'validation refuses a font whose checksums are right',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(4)}
	b := s.build()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
	// Four more bytes at the end, with the file checksum adjusted.
	o := be32(b[12+16*tableIndex(b, "head"):], 8)
	adj := uint32(be32(b, o+8))
	b = append(b, 0, 0, 0, 7)
	copy(b[o+8:], u32(int(adj-7)))
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatalf("checksums are right, but: %v", err)
	}
}

func tableIndex(b []byte, tag string) int {
	for i := 0; ; i++ {
		if string(b[12+16*i:16+16*i]) == tag {
			return i
		}
	}
}
''','github.com/unidoc/unitype')

bug('first-n-keeps-fmt4-context','S19',[('export.go','''				for cc, gid := range subt.charcodeToGID {
					if int(gid) >= numGlyphs {
						continue
					}
					charcodes = append(charcodes, cc)
				}
				sort.Slice(charcodes, func(i, j int) bool {
					return charcodes[i] < charcodes[j]
				})

				segments := 0
''','''				for cc, gid := range subt.charcodeToGID {
					if int(gid) >= numGlyphs || cc >= 0xFFF0 {
						// Not for specials.
						continue
					}
					charcodes = append(charcodes, cc)
				}
				sort.Slice(charcodes, func(i, j int) bool {
					return charcodes[i] < charcodes[j]
				})

				segments := 0
''')],'a font that maps one of the characters U+FFF0 to U+FFFE','a subset answers for the character, but what it writes does not map it',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x43, 2 - 0x41, 0}, {0xFFF9, 0xFFFC, (3 - 0xFFF9) & 0xFFFF, 0}})})}}.build()
	sub, err := parse(t, b).SubsetFirst(8)
	if err != nil {
		t.Fatal(err)
	}
	a, w := sub.GetCmap(3, 1), parse(t, out(t, sub)).GetCmap(3, 1)
	for _, r := range []rune{0x41, 0x43, 0xFFF9, 0xFFFC} {
		if a[r] != w[r] {
			t.Errorf("%U is glyph %d in the subset, but %d in its output", r, a[r], w[r])
		}
	}
}
''')
