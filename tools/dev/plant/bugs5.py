bug('empty-cvt-uncounted','P01',[('font.go','''	if f.cvt != nil {
		num++''','''	if f.cvt != nil && len(f.cvt.controlValues) > 0 {
		num++''')],
'a font with an empty control value table','the directory of the font written has a wrong number of tables',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"cvt ": {}}}.build()
	o := out(t, parse(t, b))
	if err := unitype.ValidateBytes(o); err != nil {
		t.Fatal(err)
	}
	if n := be16(o, 4); 12+16*n > be32(o, 12+8) && 12+16*n > len(o) {
		t.Fatal(n)
	}
	for i := 0; i < be16(o, 4); i++ {
		if off := be32(o, 12+16*i+8); off < 12+16*be16(o, 4) {
			t.Fatal("table in directory")
		}
		if tag := string(o[12+16*i : 16+16*i]); tag == "prep" {
			return
		}
	}
	f := parse(t, o)
	if f.TableInfo("head") == "head: missing\\n" {
		t.Fatal("head")
	}
	for _, tag := range []string{"glyf", "head", "hhea", "hmtx", "loca", "maxp"} {
		if table(o, tag) == nil {
			t.Fatalf("%s is not in the directory", tag)
		}
	}
}
''','github.com/unidoc/unitype')
bug('utf16-swap-in-place','P11',[('internal/strutils/encoding.go','''		chars[i] = uint16(b[i<<1])<<8 + uint16(b[i<<1+1])
''','''		// Little endian from here on.
		b[i<<1], b[i<<1+1] = b[i<<1+1], b[i<<1]
		chars[i] = binary.LittleEndian.Uint16(b[i<<1:])
'''),('internal/strutils/encoding.go','''	"bytes"
	"unicode/utf16"
''','''	"bytes"
	"encoding/binary"
	"unicode/utf16"
''')],
'a name asked for more than once, or asked for before the font is written','the second answer has its bytes swapped, and so has the name in the font written',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{3, 1, 0x409, 1, []byte{0, 'a', 0, 'b'}})}}.build()
	f := parse(t, b)
	for i := 0; i < 3; i++ {
		if n := f.GetNameByID(1); n != "ab" {
			t.Fatalf("%q", n)
		}
	}
}
''')
bug('fixed-through-float','P05',[('byte_writer.go','''	err := binary.Write(&w.buffer, binary.BigEndian, val)
	if err != nil {
		return err
	}
	w.len += 4
	return nil
}

func (w *byteWriter) writeFword''','''	err := binary.Write(&w.buffer, binary.BigEndian, int32(float32(val.Float64())*65536))
	if err != nil {
		return err
	}
	w.len += 4
	return nil
}

func (w *byteWriter) writeFword''')],
'a fixed point number with more than 24 significant bits, such as a font revision of 300.00002','its last bits are lost',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3)}.build()
	h := append([]byte(nil), table(b, "head")...)
	copy(h[4:], u32(0x012C5555))
	b = spec{glyphs: simples(3), extra: map[string][]byte{"head": h}}.build()
	if v := be32(table(out(t, parse(t, b)), "head"), 4); v != 0x012C5555 {
		t.Fatalf("%#x", v)
	}
}
''')
bug('getcmap-falls-back','P08',[('export.go','''			return subt.cmap
		}
	}

	return nil
}''','''			return subt.cmap
		}
	}
	if platformID == platformIDWindows && encodingID == 1 {
		// The Unicode platform has the same maps.
		return f.GetCmap(platformIDUnicode, 3)
	}

	return nil
}''')],
'a font with a map for platform 0 but none for platform 3','a map is answered that the font does not have',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{0, 3, fmt4([]seg{{0x41, 0x41, 1 - 0x41, 0}})})}}.build()
	f := parse(t, b)
	if m := f.GetCmap(3, 1); m != nil {
		t.Fatal(m)
	}
	if m := f.GetCmap(0, 3); m['A'] != 1 {
		t.Fatal(m)
	}
}
''')
bug('empty-request-keeps-all','S14',[('export.go','''	newfnt := font{}

	// Expand the set''','''	if len(indices) == 0 {
		logrus.Debug("No glyphs to keep - Ignoring, returning same back")
		return f, nil
	}
	newfnt := font{}

	// Expand the set''')],
'a subset of no glyphs at all','all outlines are kept',
'''
func TestDemo(t *testing.T) {
	f, err := parse(t, spec{glyphs: simples(5)}.build()).SubsetKeepIndices(nil)
	if err != nil {
		t.Fatal(err)
	}
	if g := table(out(t, f), "glyf"); len(g) > 40 {
		t.Fatal(len(g))
	}
}
''')
bug('report-sorts-maps','S18',[('font.go','''		b.WriteString(fmt.Sprintf("cmap: subtables: %+v\\n", f.cmap.subtableKeys))
''','''		sort.Strings(f.cmap.subtableKeys)
		b.WriteString(fmt.Sprintf("cmap: subtables: %+v\\n", f.cmap.subtableKeys))
''')],
'a font with character maps of formats 4 and 12 or 6, reported on and then written','the order of its character maps changes with the report, also in fonts derived from it by glyph',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 1, 2)}, submap{3, 1, fmt4([]seg{{0x41, 0x41, 1 - 0x41, 0}})})}}.build()
	f := parse(t, b)
	g, err := f.SubsetKeepIndices([]unitype.GlyphIndex{1, 4})
	if err != nil {
		t.Fatal(err)
	}
	before := out(t, f)
	g.TableInfo("cmap")
	if !bytes.Equal(before, out(t, f)) {
		t.Fatal("font changed by a report on its subset")
	}
}
''','bytes github.com/unidoc/unitype')
bug('hmtx-short-lsb','R23',[('table_hmtx.go','''		err = r.readSlice(&t.leftSideBearings, lsbLen)
		if err != nil {
''','''		err = r.readSlice(&t.leftSideBearings, lsbLen)
		if err == io.EOF {
			// Seen in fonts: the last bearings are missing.
			t.leftSideBearings = append(t.leftSideBearings, make([]int16, lsbLen-len(t.leftSideBearings))...)
			err = nil
		}
		if err != nil {
'''),('table_hmtx.go','''import (
''','''import (
	"io"

''')],
'a font whose metrics are last in the file, cut off among the side bearings without advance widths','it is read as if the missing bearings were zero',
'''
func TestDemo(t *testing.T) {
	// The metrics last in the file.
	s := spec{glyphs: simples(6), adv: []int{500}, lsb: []int{1, 2, 3, 4, 5, 6}}
	b := s.build()
	h := table(b, "hmtx")
	for i := 0; i < be16(b, 4); i++ {
		if string(b[12+16*i:16+16*i]) == "hmtx" {
			copy(b[12+16*i+8:], u32(len(b)))
			b = append(b, h...)
		}
	}
	if _, err := unitype.Parse(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	for k := 1; k < 12; k++ {
		if _, err := unitype.Parse(bytes.NewReader(b[:len(b)-k])); err == nil {
			t.Fatalf("%d bytes cut off", k)
		}
	}
}
''','bytes github.com/unidoc/unitype')
bug('validate-skips-dsig','P02',[('validate.go','''		checksum := bw.checksum()
		if tr.checksum != checksum {
''','''		checksum := bw.checksum()
		if tr.checksum != checksum && tr.tableTag.String() != "DSIG" { // Signed after the fact.
''')],
'damage in the digital signature table and the whole-file checksum made to fit','it is not noticed',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"DSIG": u32(1, 2)}}.build()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < be16(b, 4); i++ {
		if string(b[12+16*i:16+16*i]) == "DSIG" {
			o := be32(b, 12+16*i+8)
			b[o+3]++
			b[o+7]--
			if unitype.ValidateBytes(b) != nil {
				t.Fatal("sums that fit")
			}
			b[o+3]++
			b[12+16*i+7] -= 1 // keeps the sum of the file
			if unitype.ValidateBytes(b) == nil {
				t.Fatal("damage not noticed")
			}
		}
	}
}
''','github.com/unidoc/unitype')
bug('win-ascent-default','P05',[('table_os2.go','''	if t.version == 0 {
		return t, nil
	}

	// version >= 1.
''','''	if t.usWinAscent == 0 && t.sTypoAscender > 0 {
		t.usWinAscent = uint16(t.sTypoAscender)
	}

	if t.version == 0 {
		return t, nil
	}

	// version >= 1.
''')],
'an OS/2 table with usWinAscent 0','it is written with another value',
'''
func TestDemo(t *testing.T) {
	o2 := make([]byte, 96)
	o2[1] = 4
	copy(o2[68:], u16(700))
	b := spec{glyphs: simples(3), extra: map[string][]byte{"OS/2": o2}}.build()
	if !bytes.Equal(table(out(t, parse(t, b)), "OS/2"), o2) {
		t.Fatal("OS/2 changed")
	}
}
''','bytes')
bug('em-size-bounds','P04',[('table_head.go','''	return t, ''','''	if t.unitsPerEm < 16 || t.unitsPerEm >= 16384 {
		logrus.Debugf("Units per em outside range (%d)", t.unitsPerEm)
		return nil, errRangeCheck
	}

	return t, ''')],
'a font with 16384 units per em, the most there can be','it cannot be read',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3)}.build()
	for _, v := range []int{16, 1000, 16384} {
		h := append([]byte(nil), table(b, "head")...)
		copy(h[18:], u16(v))
		parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"head": h}}.build())
	}
}
''')
bug('contourless-is-empty','S13',[('export.go','''			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
				continue
			}
''','''			if _, has := gidIncludedMap[GlyphIndex(i)]; has && len(newfnt.glyf.descs[i].raw) > 12 {
				continue
			}
''')],
'a glyph that consists of a header without contours','its data is dropped from the subset',
'''
func TestDemo(t *testing.T) {
	g := simples(4)
	g[2] = u16(0, 1, 2, 3, 4)
	f, err := parse(t, spec{glyphs: g}.build()).SubsetKeepIndices([]unitype.GlyphIndex{2})
	if err != nil {
		t.Fatal(err)
	}
	if d := glyphData(out(t, f), 2); len(d) < 10 {
		t.Fatal(len(d))
	}
}
''','github.com/unidoc/unitype')
bug('fmt6-empty-dropped','P10',[('table_cmap.go','''		case 6:
			err := writeCmapSubtableFormat6(subt, mockWriter)
			if err != nil {
				return err
			}
''','''		case 6:
			if len(subt.charcodeToGID) == 0 {
				supported = false // Nothing to write.
				break
			}
			err := writeCmapSubtableFormat6(subt, mockWriter)
			if err != nil {
				return err
			}
''')],
'a format 6 map of no characters','it is left out of the font written',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41)}, submap{3, 1, fmt4([]seg{{0x41, 0x41, 1 - 0x41, 0}})})}}.build()
	if n := be16(table(out(t, parse(t, b)), "cmap"), 2); n != 2 {
		t.Fatal(n)
	}
}
''')
bug('write-sets-modified','P12',[('font.go','''		head.checksumAdjustment = 0
''','''		head.checksumAdjustment = 0
		if head.modified == 0 {
			head.modified = longdatetime(time.Now().Unix() + 2082844800)
		}
'''),('font.go','''	"sort"
''','''	"sort"
	"time"
''')],
'a font whose modification date is not set (0), written at two times','its output depends on the time of writing',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3)}.build()
	h := append([]byte(nil), table(b, "head")...)
	copy(h[28:], make([]byte, 8))
	f := parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"head": h}}.build())
	a := out(t, f)
	time.Sleep(1100 * time.Millisecond)
	if !bytes.Equal(a, out(t, f)) {
		t.Fatal("output differs")
	}
}
''','bytes time')
