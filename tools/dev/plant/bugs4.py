bug('closure-rounds','S13',[('export.go','''	for len(toscan) > 0 {
''','''	for level := 0; len(toscan) > 0 && level < 32; level++ {
''')],
'a composite glyph nested more than 32 levels deep','the glyphs at the bottom are left out of the subset',
'''
func TestDemo(t *testing.T) {
	g := make([][]byte, 60)
	g[0], g[1] = simpleGlyph(1), simpleGlyph(7)
	for i := 2; i < 60; i++ {
		g[i] = cat(u16(-1&0xFFFF, 0, 0, 10, 10), u16(0x0002, i-1), []byte{0, 0})
	}
	b := spec{glyphs: g, long: true}.build()
	f, err := parse(t, b).SubsetKeepIndices([]unitype.GlyphIndex{59})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, f)
	for i := 1; i < 60; i++ {
		if len(glyphData(o, i)) == 0 {
			t.Fatalf("glyph %d is missing", i)
		}
	}
}
''','github.com/unidoc/unitype')
bug('component-count-cap','S13',[('table_glyf.go','''		if !flag.IsSet(moreComponents) {
			break
		}
''','''		if !flag.IsSet(moreComponents) || len(composite.components) > 255 {
			break
		}
''')],
'a composite glyph of more than 256 components','the last ones are left out of the subset',
'''
func TestDemo(t *testing.T) {
	g := make([][]byte, 302)
	for i := range g {
		g[i] = simpleGlyph(i + 1)
	}
	c := u16(-1&0xFFFF, 0, 0, 10, 10)
	for i := 1; i <= 300; i++ {
		fl := 0x22
		if i == 300 {
			fl = 2
		}
		c = cat(c, u16(fl, i), []byte{0, 0})
	}
	g[301] = c
	b := spec{glyphs: g, long: true}.build()
	f, err := parse(t, b).SubsetKeepIndices([]unitype.GlyphIndex{301})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, f)
	for i := 1; i < 301; i++ {
		if len(glyphData(o, i)) == 0 {
			t.Fatalf("glyph %d is missing", i)
		}
	}
}
''','github.com/unidoc/unitype')
bug('directory-cap','P04',[('table_record.go','''	if numTables < 0 {
''','''	if numTables < 0 || numTables > 256 {
''')],
'a font of more than 256 tables','it cannot be read',
'''
func TestDemo(t *testing.T) {
	ex := map[string][]byte{}
	for i := 0; i < 270; i++ {
		ex[fmt.Sprintf("Z%03d", i)] = u16(i)
	}
	b := spec{glyphs: simples(3), extra: ex}.build()
	if f := parse(t, b); f.GetNameByID(99) != "" {
		t.Fatal("name")
	}
}
''','fmt')
bug('cmap-subtable-cap','P10',[('table_cmap.go','''		if cmap != nil {
			key''','''		if cmap != nil && len(t.subtableKeys) < 16 {
			key''')],
'a font with more than 16 character maps','the later ones are lost',
'''
func TestDemo(t *testing.T) {
	var s []submap
	for e := 0; e < 18; e++ {
		s = append(s, submap{1, e, fmt6(0x41, 1+e%3)})
	}
	s = append(s, submap{3, 1, fmt4([]seg{{0x42, 0x42, 2 - 0x42, 0}})})
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(s...)}}.build()
	o := out(t, parse(t, b))
	if n := be16(table(o, "cmap"), 2); n != 19 {
		t.Fatalf("%d maps", n)
	}
}
''')
bug('groups-cap','P04',[('table_cmap.go','''	for i := 0; i < int(st.numGroups); i++ {
''','''	if st.numGroups > 4096 {
		logrus.Debugf("Too many groups (%d)", st.numGroups)
		return nil, errRangeCheck
	}
	for i := 0; i < int(st.numGroups); i++ {
''')],
'a format 12 character map of more than 4096 groups','the font cannot be read',
'''
func TestDemo(t *testing.T) {
	var g [][3]int
	for i := 0; i < 5000; i++ {
		g = append(g, [3]int{0x10000 + 2*i, 0x10000 + 2*i, 1 + i%2})
	}
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, fmt12(g...)})}}.build()
	if m := parse(t, b).GetCmap(3, 10); len(m) != 5000 {
		t.Fatalf("%d", len(m))
	}
}
''')
bug('name-count-cap','P11',[('table_name.go','''	t := f.name

''','''	t := f.name
	if len(t.nameRecords) > 1024 {
		logrus.Debugf("Many name records (%d)", len(t.nameRecords))
		limited := *t
		limited.nameRecords = t.nameRecords[:1024]
		t = &limited
	}

''')],
'a font of more than 1024 name records','the rest is not written',
'''
func TestDemo(t *testing.T) {
	var r []nameRec
	for i := 0; i < 1100; i++ {
		r = append(r, nameRec{3, 1, 0x409, 256 + i, []byte{0, 'a'}})
	}
	b := spec{glyphs: simples(5), extra: map[string][]byte{"name": nameTab(r...)}}.build()
	f := parse(t, out(t, parse(t, b)))
	if n := f.GetNameByID(256 + 1099); n != "a" {
		t.Fatalf("%q", n)
	}
}
''')
bug('hmetrics-signed','P07',[('table_hmtx.go','''	numberOfHMetrics := int(f.hhea.numberOfHMetrics)
''','''	numberOfHMetrics := int(int16(f.hhea.numberOfHMetrics))
''')],
'a font with more than 32767 advance widths','all widths and side bearings are lost or misread',
'''
func TestDemo(t *testing.T) {
	var adv []int
	for i := 0; i < 33000; i++ {
		adv = append(adv, i)
	}
	b := spec{glyphs: make([][]byte, 33000), long: true, adv: adv}.build()
	o := out(t, parse(t, b))
	for _, i := range []int{0, 1, 32999} {
		if a, _ := metric(o, i); a != i {
			t.Fatalf("glyph %d: %d", i, a)
		}
	}
}
''')
bug('loca-24bit','S16',[('export.go','''				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
			}
		}
	}

	if f.font.prep != nil {
		newfnt.prep = &prepTable{}
		*newfnt.prep = *f.font.prep
	}

	if f.font.cvt != nil {
		newfnt.cvt = &cvtTable{}
		*newfnt.cvt = *f.font.cvt
	}

	if f.font.fpgm != nil {
		newfnt.fpgm = &fpgmTable{}
		*newfnt.fpgm = *f.font.fpgm
	}

	if f.font.name != nil {
		newfnt.name = &nameTable{}
		*newfnt.name = *f.font.name
	}

	if f.font.os2 != nil {
		newfnt.os2 = &os2Table{}
		*newfnt.os2 = *f.font.os2
	}

	if f.font.post != nil {
		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post

''','''				newfnt.loca.offsetsLong[i+1] = (newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))) & 0xFFFFFF
			}
		}
	}

	if f.font.prep != nil {
		newfnt.prep = &prepTable{}
		*newfnt.prep = *f.font.prep
	}

	if f.font.cvt != nil {
		newfnt.cvt = &cvtTable{}
		*newfnt.cvt = *f.font.cvt
	}

	if f.font.fpgm != nil {
		newfnt.fpgm = &fpgmTable{}
		*newfnt.fpgm = *f.font.fpgm
	}

	if f.font.name != nil {
		newfnt.name = &nameTable{}
		*newfnt.name = *f.font.name
	}

	if f.font.os2 != nil {
		newfnt.os2 = &os2Table{}
		*newfnt.os2 = *f.font.os2
	}

	if f.font.post != nil {
		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post

''')],
'a font cut to its first glyphs with more than 16 MB of outlines left','offsets of the glyphs beyond wrap around',
'''
func TestDemo(t *testing.T) {
	g := make([][]byte, 300)
	for i := range g {
		g[i] = cat(simpleGlyph(i), make([]byte, 60000))
	}
	b := spec{glyphs: g, long: true}.build()
	f, err := parse(t, b).SubsetFirst(299)
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, f)
	for _, i := range []int{0, 279, 298} {
		if len(glyphData(o, i)) < len(g[i]) {
			t.Fatalf("glyph %d", i)
		}
	}
}
''')
bug('validate-first-16mb','P02',[('validate.go','''		_, err = io.Copy(&buf, r.reader)
''','''		_, err = io.Copy(&buf, io.LimitReader(r.reader, 16<<20))
''')],
'an intact font of more than 16 MB','it is rejected',
'''
func TestDemo(t *testing.T) {
	g := make([][]byte, 300)
	for i := range g {
		g[i] = cat(simpleGlyph(i), make([]byte, 60000))
	}
	b := spec{glyphs: g, long: true}.build()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
}
''','github.com/unidoc/unitype')
BUGS['validate-first-16mb']['prop']='P03'
bug('post-names-cap','I28',[('table_post.go','''		for i := 0; i < newGlyphs; i++ {
''','''		for i := 0; i < newGlyphs && i < 1024; i++ {
'''),('table_post.go','''		if len(names) != newGlyphs {
			logrus''','''		if len(names) != newGlyphs && len(names) < 1024 {
			logrus'''),('table_post.go','''				if int(ni) >= len(names) {
					logrus''','''				if int(ni) >= len(names) && len(names) >= 1024 {
					continue
				}
				if int(ni) >= len(names) {
					logrus''')],
'more than 1024 glyph names of its own in a font','the rest of the glyphs have no names',
'''
func TestDemo(t *testing.T) {
	p := cat(u32(0x20000), make([]byte, 28), u16(1500))
	for i := 0; i < 1500; i++ {
		p = cat(p, u16(258+i))
	}
	for i := 0; i < 1500; i++ {
		s := fmt.Sprintf("n%d", i)
		p = cat(p, []byte{byte(len(s))}, []byte(s))
	}
	b := spec{glyphs: simples(1500), long: true, extra: map[string][]byte{"post": p}}.build()
	s := parse(t, b).TableInfo("post")
	if !strings.Contains(s, "n1499") {
		t.Fatal("name missing")
	}
}
''','fmt strings')
