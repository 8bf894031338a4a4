bug('checksum-drops-tail','P02',[('validate.go','''		bw.buffer.Write(data)
''','''		// The checksum is over 32 bit words.
		bw.buffer.Write(data[:len(data)&^3])
''')],'a file whose length is not a multiple of four with damage in its last one to three bytes, outside any table','the damage is not noticed',
'''
func TestDemo(t *testing.T) {
	tab := spec{glyphs: simples(3)}.tables()
	b := assemble(tab)
	for _, tail := range []string{"x", "xy", "xyz"} {
		o := append(append([]byte(nil), b...), tail...)
		if err := unitype.ValidateBytes(o); err == nil {
			t.Errorf("accepted with %q after its last table", tail)
		}
	}
	if err := unitype.ValidateBytes(b); err != nil {
		t.Error(err)
	}
}
''','github.com/unidoc/unitype')

bug('validate-once-per-offset','P02',[('validate.go','''	for _, tr := range f.trec.list {
		logrus.Debugf("Validating %s", tr.tableTag.String())
''','''	done := map[offset32]bool{}
	for _, tr := range f.trec.list {
		if done[tr.offset] {
			// Data shared by several tables.
			continue
		}
		done[tr.offset] = true
		logrus.Debugf("Validating %s", tr.tableTag.String())
''')],'two tables that start at the same place, of which the second in the directory has a wrong checksum','the wrong checksum is not noticed',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(3), extra: map[string][]byte{"AAAA": {1, 2, 3, 4, 5, 6, 7, 8}, "BBBB": {9, 9, 9, 9}}}
	b := assemble(s.tables())
	fix := func() {
		copyBytes := append([]byte(nil), b...)
		for i := 0; i < be16(b, 4); i++ {
			r := copyBytes[12+16*i:]
			if string(r[:4]) == "head" {
				o := be32(r, 8)
				copy(copyBytes[o+8:], []byte{0, 0, 0, 0})
				copy(b[o+8:], u32(0xB1B0AFBA-int(sum(copyBytes))))
			}
		}
	}
	rec := func(tag string) []byte {
		for i := 0; i < be16(b, 4); i++ {
			if r := b[12+16*i:]; string(r[:4]) == tag {
				return r[:16]
			}
		}
		return nil
	}
	copy(rec("BBBB")[8:], rec("AAAA")[8:12])
	copy(rec("BBBB")[4:], []byte{1, 2, 3, 4})
	fix()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatalf("right checksums: %v", err)
	}
	rec("BBBB")[7] ^= 1
	fix()
	if err := unitype.ValidateBytes(b); err == nil {
		t.Fatal("a wrong table checksum is accepted")
	}
}
''','github.com/unidoc/unitype')

bug('validate-wants-aligned','P03',[('validate.go','''		if tr.offset < 0 || tr.length < 0 {
			logrus.Debug("Range check error")
			return errRangeCheck
		}
''','''		if tr.offset%4 != 0 || int(tr.offset) < 12+16*len(f.trec.list) {
			logrus.Debug("Range check error")
			return errRangeCheck
		}
''')],'a font with a table that is not on a four byte boundary or an empty table with offset 0','an intact font is refused',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(3), extra: map[string][]byte{"AAAA": {}}}
	b := assemble(s.tables())
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
	r := b[12:28] // AAAA is first
	old := be32(r, 8)
	copy(r[8:], u32(0))
	var head []byte
	for i := 0; i < be16(b, 4); i++ {
		if r := b[12+16*i:]; string(r[:4]) == "head" {
			head = b[be32(r, 8):]
		}
	}
	copy(head[8:], u32(be32(head, 8)+old))
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatalf("empty table with offset 0: %v", err)
	}
}
''','github.com/unidoc/unitype')

bug('langtag-at-end','P04',[('table_name.go','''		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) > int(tr.length) {''','''		if int(t.stringOffset)+int(ltr.offset)+int(ltr.length) >= int(tr.length) {''')],
'a name table of format 1 whose storage ends with a language tag','the font cannot be parsed',
'''
func TestDemo(t *testing.T) {
	tag := []byte{0, 'e', 0, 'n'}
	nm := cat(u16(1, 1, 6+12+2+4), u16(3, 1, 0x8000, 1, 4, 0), u16(1, 4, 4), []byte{0, 'A', 0, 'B'}, tag)
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nm}}.build()
	if n := parse(t, b).GetNameByID(1); n != "AB" {
		t.Fatal(n)
	}
}
''')

bug('dates-before-1904-plus','P05',[('byte_reader.go','''	var val longdatetime
	err := binary.Read(r.reader, binary.BigEndian, &val)
	return val, err
''','''	hi, err := r.readInt32()
	if err != nil {
		return 0, err
	}
	lo, err := r.readInt32()
	return longdatetime(hi)<<32 + longdatetime(lo), err
''')],'a date whose low 32 bits are 2^31 or more (years 1972 to 2040)','the date written is 2^32 seconds earlier than the one read',
'''
func TestDemo(t *testing.T) {
	tab := spec{glyphs: simples(3)}.tables()
	copy(tab["head"][20:], cat(u32(0, 0xD0000000, 0, 0x7FFFFFFF)))
	o := out(t, parse(t, assemble(tab)))
	if g := table(o, "head")[20:36]; !bytes.Equal(g, tab["head"][20:36]) {
		t.Fatalf("dates % x became % x", tab["head"][20:36], g)
	}
}
''','bytes')

bug('zero-bearings-omitted','P07',[('table_hmtx.go','''	return w.writeSlice(f.hmtx.leftSideBearings)
''','''	for _, lsb := range f.hmtx.leftSideBearings {
		if lsb != 0 {
			return w.writeSlice(f.hmtx.leftSideBearings)
		}
	}
	return nil
''')],'a font with glyphs without advance widths of their own, all of which have side bearing 0','the side bearings are not written: the metrics table is too short',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(6), adv: []int{500, 600}, lsb: []int{1, 2, 0, 0, 0, 0}}
	o := out(t, parse(t, s.build()))
	if h := table(o, "hmtx"); len(h) < 4*2+2*4 {
		t.Fatalf("%d bytes of metrics for 6 glyphs", len(h))
	}
}
''')

bug('lookup-memo','P09',[('export.go','''	for _, r := range runes {
		index := GlyphIndex(0)
''','''	memo := map[uint16]GlyphIndex{} // Texts repeat characters.
	for _, r := range runes {
		if index, has := memo[uint16(r)]; has {
			indices = append(indices, index)
			continue
		}
		index := GlyphIndex(0)
'''),('export.go','''		indices = append(indices, index)
	}
	logrus.Debugf("Runes:''','''		memo[uint16(r)] = index
		indices = append(indices, index)
	}
	logrus.Debugf("Runes:''')],'two runes 0x10000 apart looked up together','the second has the glyph of the first',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, fmt12([3]int{0x41, 0x43, 3}, [3]int{0x10041, 0x10041, 8})})}}.build()
	g := parse(t, b).LookupRunes([]rune{0x41, 0x42, 0x41, 0x10041, 0x10042})
	want := []int{3, 4, 3, 8, 0}
	for i := range want {
		if int(g[i]) != want[i] {
			t.Errorf("rune %d is glyph %d, want %d", i, g[i], want[i])
		}
	}
}
''')

bug('fmt12-language-16','P10',[('table_cmap.go','''	err := w.write(format, subt.reserved, subt.length, subt.language, subt.numGroups)
''','''	err := w.write(format, subt.reserved, subt.length, uint16(0), uint16(subt.language), subt.numGroups)
''')],'a format 12 character map with a language above 65535','the upper half of the language is lost',
'''
func TestDemo(t *testing.T) {
	m := fmt12([3]int{0x41, 0x43, 3})
	copy(m[8:], u32(0x00020001))
	b := spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, m})}}.build()
	o := out(t, parse(t, b))
	if c := table(o, "cmap"); be32(c, 12+8) != 0x00020001 {
		t.Fatalf("language %x", be32(c, 12+8))
	}
}
''')

bug('langtag-names-skipped','P11',[('table_name.go','''	for _, nr := range f.name.nameRecords {
		nameRec, ok := nameRecords[nr.languageID]
''','''	for _, nr := range f.name.nameRecords {
		if nr.languageID >= 0x8000 && int(nr.languageID-0x8000) >= len(f.name.langTagRecords) {
			continue // No such language tag.
		}
		nameRec, ok := nameRecords[nr.languageID]
''')],'a name with a language ID of 0x8000 or more in a table without that language tag','the name is missing from the records',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 1, []byte("A")}, nameRec{1, 0, 0x8000, 2, []byte("B")}, nameRec{1, 0, 0xFFFF, 2, []byte("C")})}}.build()
	m := parse(t, b).GetNameRecords()
	if m[0][1] != "A" || m[0x8000][2] != "B" || m[0xFFFF][2] != "C" {
		t.Fatal(m)
	}
}
''')

bug('closure-trusts-maxp','S13',[('export.go','''	for len(toscan) > 0 {
		var newgids []GlyphIndex
''','''	for depth := 0; len(toscan) > 0; depth++ {
		if f.maxp != nil && depth > int(f.maxp.maxComponentDepth) && depth > 1 {
			break // Cycle.
		}
		var newgids []GlyphIndex
''')],'composites nested deeper than two levels and than maxp states','components of components are missing from the subset',
'''
func TestDemo(t *testing.T) {
	comp := func(g int) []byte { return cat(u16(0xFFFF, 0, 0, 10, 10), u16(0, g, 0)) }
	s := spec{glyphs: append(simples(4), comp(1), comp(4), comp(5), comp(6), comp(7))}
	tab := s.tables()
	copy(tab["maxp"][30:], u16(1))
	sub, err := parse(t, assemble(tab)).SubsetKeepIndices([]unitype.GlyphIndex{8})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, sub)
	for _, g := range []int{1, 4, 5, 6, 7, 8} {
		if len(glyphData(o, g)) == 0 {
			t.Errorf("glyph %d is missing", g)
		}
	}
}
''','github.com/unidoc/unitype')

bug('only-minus-one-composite','S13',[('table_glyf.go','''	return gd.header.numberOfContours > -1
''','''	return gd.header.numberOfContours != -1
''')],'a composite glyph with a number of contours below -1','its components are missing from the subset',
'''
func TestDemo(t *testing.T) {
	comp := func(n, g int) []byte { return cat(u16(n, 0, 0, 10, 10), u16(0, g, 0)) }
	s := spec{glyphs: append(simples(4), comp(0xFFFE, 1), comp(0x8000, 4), comp(0xFFFF, 5))}
	sub, err := parse(t, s.build()).SubsetKeepIndices([]unitype.GlyphIndex{6})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, sub)
	for _, g := range []int{1, 4, 5, 6} {
		if len(glyphData(o, g)) == 0 {
			t.Errorf("glyph %d is missing", g)
		}
	}
}
''','github.com/unidoc/unitype')

bug('keeps-whole-composite-tail','S14',[('export.go','''			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
				continue
			}
''','''			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
				continue
			}
			if _, has := gidIncludedMap[GlyphIndex(uint8(i))]; has && i > 0xFF && len(gidIncludedMap) == 1 {
				continue // Same glyph.
			}
''')],'a single glyph below 256 asked for, in a font of more glyphs, then trimmed',
'outlines not asked for','''
func TestDemo(t *testing.T) {
}
''')

bug('first-all-recomputed','S16',[('export.go','''	if int(f.maxp.numGlyphs) <= numGlyphs {
''','''	if int(f.maxp.numGlyphs) < numGlyphs {
''')],'the number of glyphs asked for is that of the font','the output is not that of the font',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(10), adv: []int{500, 500, 500, 500, 500, 500, 500, 500, 500, 500}, extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x43, 3 - 0x41, 0}, {0x44, 0x45, 6 - 0x44, 0}})})}}.build())
	sub, err := f.SubsetFirst(10)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out(t, f), out(t, sub)) {
		t.Fatal("all glyphs of the font, but other bytes")
	}
}
''','bytes')

bug('optimize-in-place','S18',[('table_hmtx.go','''	f.hmtx.leftSideBearings = append(lsbPrepend, f.hmtx.leftSideBearings...)
''','''	old := len(f.hmtx.leftSideBearings)
	f.hmtx.leftSideBearings = append(f.hmtx.leftSideBearings, lsbPrepend...)
	copy(f.hmtx.leftSideBearings[len(lsbPrepend):], f.hmtx.leftSideBearings[:old])
	copy(f.hmtx.leftSideBearings, lsbPrepend)
''')],'a font with glyphs that have only a side bearing, subset to a number of glyphs that ends among them, where several of the widths before are the same','the side bearings of the font subset are overwritten',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(12), adv: []int{400, 500, 500, 500, 500, 500}}.build())
	before := out(t, f)
	if _, err := f.SubsetFirst(8); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(before, out(t, f)) {
		t.Fatal("subsetting changes the font")
	}
}
''','bytes')

bug('lookup-maps-kept','S19',[('export.go','''type Font struct {
	br *byteReader
''','''type Font struct {
	br *byteReader

	runeMaps []map[rune]GlyphIndex // Searched by LookupRunes, in order.
'''),('export.go','''	var maps []map[rune]GlyphIndex
	// Search''','''	maps := f.runeMaps
	// Search'''),('export.go','''	maps = append(maps,
		f.GetCmap(3, 1),
		f.GetCmap(1, 0),
		f.GetCmap(0, 3),
		f.GetCmap(3, 10),
	)
''','''	if maps == nil {
		maps = append(maps,
			f.GetCmap(3, 1),
			f.GetCmap(1, 0),
			f.GetCmap(0, 3),
			f.GetCmap(3, 10),
		)
		f.runeMaps = maps
	}
''')],'runes looked up, then the character maps pruned, then looked up again','the font still answers with the glyphs of the maps it no longer has',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(10), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x43, 3 - 0x41, 0}})})}}.build())
	if g := f.LookupRunes([]rune("A")); g[0] != 3 {
		t.Fatal(g)
	}
	if err := f.PruneTables("cmap"); err != nil {
		t.Fatal(err)
	}
	if g := f.LookupRunes([]rune("A")); g[0] != 0 {
		t.Fatalf("glyph %d without a character map", g[0])
	}
}
''')

bug('prune-any-case','P20',[('export.go','''		switch table {
		case "cmap":
			f.cmap = nil''','''		switch strings.TrimSpace(strings.ToLower(table)) {
		case "cmap":
			f.cmap = nil'''),('export.go','''	"os"
	"sort"
''','''	"os"
	"sort"
	"strings"
''')],'a table name that differs from a known one in case or spaces','a table that was not named is removed',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(10), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 1, []byte("A")})}}.build())
	for _, n := range []string{"NAME", "Name", " name", "name "} {
		if err := f.PruneTables(n); err != nil {
			t.Fatal(err)
		}
		if f.GetNameByID(1) != "A" {
			t.Fatalf("PruneTables(%q) removes the name table", n)
		}
	}
}
''')

bug('post-reserved-index','R21',[('table_post.go','''			} else if ni <= 32767 {
				ni -= 258
''','''			} else {
				ni -= 258
'''),('table_post.go','''				if int(ni) >= len(names) {
''','''				if int(ni) > newGlyphs && int(ni) < 32768-258 {
''')],'a post 2.0 table with a reserved name index (32768 or more)','parsing panics',
'''
func TestDemo(t *testing.T) {
	post := cat(u32(0x00020000, 0), u16(0, 0), u32(0, 0, 0, 0, 0), u16(3), u16(0, 0xFFFF, 258), []byte{1, 'a'})
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	_, _ = unitype.Parse(bytes.NewReader(spec{glyphs: simples(3), extra: map[string][]byte{"post": post}}.build()))
}
''','bytes github.com/unidoc/unitype')

bug('cvt-preallocated','R22',[('table_cvt.go','''	t := &cvtTable{}
	numVals := int(tr.length / 2)
''','''	numVals := int(tr.length / 2)
	t := &cvtTable{controlValues: make([]int16, 0, numVals)}
''')],'a control value table with a declared length far beyond the end of the file','memory for the declared length is allocated',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"cvt": {0, 1, 0, 2}}}.build()
	for i := 0; i < be16(b, 4); i++ {
		if r := b[12+16*i:]; string(r[:4]) == "cvt " {
			copy(r[12:], u32(0x20000000))
		}
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	_, _ = unitype.Parse(bytes.NewReader(b))
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		t.Fatalf("%d MB allocated for a file of %d bytes", d>>20, len(b))
	}
}
''','bytes runtime github.com/unidoc/unitype')

bug('seek-failure-is-absence','R23',[('table_record.go','''	err = r.SeekTo(int64(tr.offset))
	if err != nil {
		return tr, false, err
	}
''','''	err = r.SeekTo(int64(tr.offset))
	if err != nil {
		logrus.Debugf("Table %s is outside the file: %v", tableName, err)
		return tr, false, nil
	}
''')],'a seek to an optional table that fails','the font comes without the table instead of an error',
'''
type rs struct {
	*bytes.Reader
	left int
}

func (r *rs) Seek(o int64, w int) (int64, error) {
	if w == 0 {
		if r.left--; r.left < 0 {
			return 0, errors.New("seek failure")
		}
	}
	return r.Reader.Seek(o, w)
}

func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 1, []byte("A")})}}.build()
	want := out(t, parse(t, b))
	for n := 0; n < 30; n++ {
		f, err := unitype.Parse(&rs{bytes.NewReader(b), n})
		if err == nil && !bytes.Equal(out(t, f), want) {
			t.Errorf("after %d seeks: another font, no error", n)
		}
	}
}
''','bytes errors github.com/unidoc/unitype')

bug('write-file-no-truncate','R24',[('export.go','''	of, err := os.Create(outPath)
''','''	of, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE, 0666)
''')],'a longer file at the path written to','the end of the old file remains',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(3)}.build())
	p := filepath.Join(t.TempDir(), "f.ttf")
	if err := os.WriteFile(p, make([]byte, 100000), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := f.WriteFile(p); err != nil {
		t.Fatal(err)
	}
	got, _ := os.ReadFile(p)
	if !bytes.Equal(got, out(t, f)) {
		t.Fatalf("%d bytes in the file, want %d", len(got), len(out(t, f)))
	}
}
''','bytes os path/filepath')

bug('checksum-global-scratch','R25',[('byte_writer.go','''		dup := make([]byte, 4)
		copy(dup, data[a:b])

		if b-a < 4 {
			for j := 0; j < b-a; j++ {
				dup = append(dup, 0) //
			}
		}

		val := binary.BigEndian.Uint32(dup)
''','''		word = [4]byte{}
		copy(word[:], data[a:b])

		val := binary.BigEndian.Uint32(word[:])
'''),('byte_writer.go','''// checksum returns the checksum of the''','''// word holds the data being added to a checksum.
var word [4]byte

// checksum returns the checksum of the''')],'two fonts, or one, written at the same time','a data race; wrong checksums',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(40)}.build()
	f, g := parse(t, b), parse(t, b)
	var wg sync.WaitGroup
	for _, x := range []*unitype.Font{f, g, f, g} {
		x := x
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w bytes.Buffer
			for i := 0; i < 20; i++ {
				x.Write(&w)
			}
		}()
	}
	wg.Wait()
}
''','bytes sync github.com/unidoc/unitype',demosh=RACE)

bug('readwrite-ignores-failure','L26',[('truecli/cmd/readwrite.go','''		err = tfnt.WriteFile("readwrite.ttf")
		if err != nil {
			panic(err)
		}
''','''		defer func() {
			if r := recover(); r != nil {
				fmt.Printf("Error: %v\\n", r)
			}
		}()
		err = tfnt.WriteFile("readwrite.ttf")
		if err != nil {
			panic(err)
		}
''')],'readwrite.ttf cannot be created','the program exits with success though it wrote nothing','',kit=False,demosh=CLI+'''
./truecli readwrite in.ttf > log 2>&1 && [ -s readwrite.ttf ] || { echo "ordinary use fails"; exit 1; }
/bin/rm readwrite.ttf
mkdir readwrite.ttf
if ./truecli readwrite in.ttf > log 2>&1; then echo "success, but readwrite.ttf is a directory"; exit 1; fi
exit 0
''')

bug('report-1024','I28',[('font.go','''			} else if tr.length > 1024 {
				b.WriteString(fmt.Sprintf("%s: %.2f kB\\n", tr.tableTag.String(), float64(tr.length)/1024))
''','''			} else if tr.length > 1000 {
				b.WriteString(fmt.Sprintf("%s: %.2f kB\\n", tr.tableTag.String(), float64(tr.length)/1000))
''')],'a table of more than 1000 bytes','the size stated is not in the unit the other reports use',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"zzzz": make([]byte, 2048)}}.build())
	if s := f.TableInfo("trec"); !strings.Contains(s, "zzzz: 2.00 kB") {
		t.Fatal(s)
	}
}
''','strings')

bug('glyf-size-counts-kept','I28',[('font.go','''		for _, desc := range f.glyf.descs {
			rawTotal += float64(len(desc.raw))
		}
''','''		if f.loca != nil && len(f.loca.offsetsLong) > 0 {
			rawTotal = float64(f.loca.offsetsLong[len(f.loca.offsetsLong)-1])
		} else {
			for _, desc := range f.glyf.descs {
				rawTotal += float64(len(desc.raw))
			}
		}
''')],'a font with long locations whose first glyph is not at the start of the glyph table','the size stated includes bytes of no glyph',
'''
func TestDemo(t *testing.T) {
	s := spec{glyphs: simples(40), long: true}
	tab := s.tables()
	tab["glyf"] = append(make([]byte, 4096), tab["glyf"]...)
	for i := 0; i < len(tab["loca"]); i += 4 {
		copy(tab["loca"][i:], u32(be32(tab["loca"], i)+4096))
	}
	want := parse(t, s.build()).TableInfo("glyf")
	if got := parse(t, assemble(tab)).TableInfo("glyf"); got != want {
		t.Fatalf("%q, want %q", got, want)
	}
}
''')
