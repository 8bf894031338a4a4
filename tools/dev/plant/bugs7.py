bug('validate-in-place','P03',[('export.go','''	r := bytes.NewReader(b)
	br := newByteReader(r)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}

	return fnt.validate(br)''','''	r := bytes.NewReader(b)
	br := newByteReader(r)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}
	if rec := fnt.trec.trMap["head"]; rec != nil && fnt.head != nil {
		// The checksums are those with the adjustment unset.
		copy(b[rec.offset+8:rec.offset+12], []byte{0, 0, 0, 0})
		defer binary.BigEndian.PutUint32(b[rec.offset+8:], fnt.head.checksumAdjustment)
	}

	return fnt.validate(br)'''),('export.go','	"bytes"\n	"errors"','	"bytes"\n	"encoding/binary"\n	"errors"')],
'bytes in memory that cannot be written, or read by someone else during validation','validation zeroes the checksum adjustment in the bytes it is given and puts it back',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5)}.build()
	mem, err := syscall.Mmap(-1, 0, (len(b)+65535)&^65535, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Fatal(err)
	}
	copy(mem, b)
	if err := syscall.Mprotect(mem, syscall.PROT_READ); err != nil {
		t.Fatal(err)
	}
	debug.SetPanicOnFault(true)
	if err := unitype.ValidateBytes(mem[:len(b)]); err != nil {
		t.Fatal(err)
	}
}
''','syscall runtime/debug github.com/unidoc/unitype')
bug('names-strip-bom','P11',[('internal/strutils/encoding.go','''	runes := utf16.Decode(chars)
	return runes''','''	if n > 0 && chars[0] == 0xFEFF {
		chars = chars[1:] // Byte order mark.
	}
	runes := utf16.Decode(chars)
	return runes''')],
'a Unicode or Windows name that begins with U+FEFF','the first character is missing from the name',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{3, 1, 0x409, 1, u16(0x41)}, nameRec{3, 1, 0x409, 4, u16(0xFEFF, 0x41)})}}.build())
	if n := f.GetNameByID(4); n != `'\\ufeff'A` {
		t.Fatalf("%q", n)
	}
}
''')
bug('name-id-16','P11',[('table_name.go','		if int(nr.nameID) == nameID {','		if nr.nameID == uint16(nameID) {')],
'a name identifier outside 0 to 65535','the query is answered with the name of the identifier modulo 65536',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{3, 1, 0x409, 1, u16(0x41)})}}.build())
	if n := f.GetNameByID(1 + 65536); n != "" {
		t.Fatalf("%q", n)
	}
	if n := f.GetNameByID(1); n != "A" {
		t.Fatalf("%q", n)
	}
}
''')
bug('break-at-instructions','S13',[('table_glyf.go','''		composite.components = append(composite.components, comp)
		if !flag.IsSet(moreComponents) {''','''		composite.components = append(composite.components, comp)
		if instructionsFollow || !flag.IsSet(moreComponents) { // The instructions come last.''')],
'a composite glyph whose instruction flag is set on a component before the last','the components after it are missing from the subset',
'''
func TestDemo(t *testing.T) {
	comp := cat(u16(0xFFFF, 0, 0, 9, 9), u16(0x0020|0x0100|0x0002, 1), []byte{0, 0}, u16(0x0020|0x0002, 2), []byte{1, 1}, u16(0x0002, 3), []byte{2, 2}, u16(2), []byte{0x4F, 0x4F})
	g := append(simples(5), comp, simpleGlyph(7))
	f := parse(t, spec{glyphs: g}.build())
	sub, err := f.SubsetKeepIndices([]unitype.GlyphIndex{5})
	if err != nil {
		t.Fatal(err)
	}
	b := out(t, sub)
	for gid := 1; gid <= 3; gid++ {
		if len(glyphData(b, gid)) == 0 {
			t.Fatal("glyph", gid, "lost")
		}
	}
}
''','github.com/unidoc/unitype')
bug('dup-requests','S13',[('export.go','''	for _, gid := range indices {
		gidIncludedMap[gid] = struct{}{}
	}
''','''	for _, gid := range indices {
		if _, has := gidIncludedMap[gid]; has {
			delete(gidIncludedMap, gid) // Requested again further on.
			continue
		}
		gidIncludedMap[gid] = struct{}{}
	}
''')],
'a glyph that is requested an even number of times','it is not in the subset',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(8)}.build())
	sub, err := f.SubsetKeepIndices([]unitype.GlyphIndex{2, 5, 2, 6})
	if err != nil {
		t.Fatal(err)
	}
	if len(glyphData(out(t, sub), 2)) == 0 {
		t.Fatal("glyph 2 lost")
	}
}
''','github.com/unidoc/unitype')
bug('fmt12-run-16','S15',[('export.go','''						if int(charcodes[j]-charcodes[i]) != j-i ||
							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
							break
						}
					}
					// from i:j-1 maps to subt.charcodes[i]:subt.charcodes[i]+j-i-1
					startCharCode :=''','''						if int(uint16(charcodes[j]-charcodes[i])) != j-i ||
							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
							break
						}
					}
					// from i:j-1 maps to subt.charcodes[i]:subt.charcodes[i]+j-i-1
					startCharCode :=''')],
'a format 12 map with characters 65536 times n plus one apart that lead to consecutive glyphs','the subset maps them as one run of characters',
'''
func TestDemo(t *testing.T) {
	f := parse(t, spec{glyphs: simples(9), extra: map[string][]byte{"cmap": cmapTab(submap{3, 10, fmt12([3]int{0x41, 0x41, 2}, [3]int{0x10042, 0x10042, 3})})}}.build())
	sub, err := f.SubsetFirst(6)
	if err != nil {
		t.Fatal(err)
	}
	m := parse(t, out(t, sub)).GetCmap(3, 10)
	if len(m) != 2 || m[0x41] != 2 || m[0x10042] != 3 {
		t.Fatal(m)
	}
}
''')
bug('large-glyph-shared-buffer','P06',[('byte_reader.go','''		var buf bytes.Buffer
		_, err := io.CopyN(&buf, r.reader, int64(length))
''','''		buf := &r.big
		buf.Reset()
		_, err := io.CopyN(buf, r.reader, int64(length))
'''),('byte_reader.go','	reader *bufio.Reader\n}','	reader *bufio.Reader\n\n	big bytes.Buffer // For large data.\n}')],
'several glyphs of more than 65536 bytes','the earlier glyphs hold the data of later ones',
'''
func TestDemo(t *testing.T) {
	big := func(v byte) []byte {
		g := cat(u16(1, 0, 0, 9, 9, 2, 65500), bytes.Repeat([]byte{v}, 65500), make([]byte, 99))
		return append(g, make([]byte, 4-len(g)%4)...)
	}
	g := append(simples(3), big(1), big(2))
	b := spec{glyphs: g, long: true}.build()
	w := out(t, parse(t, b))
	for gid := range g {
		if !bytes.Equal(glyphData(w, gid), glyphData(b, gid)) {
			t.Fatal("glyph", gid)
		}
	}
}
''','bytes')
bug('validate-31bit','P02',[('validate.go','		if tr.checksum != checksum {','		if tr.checksum<<1 != checksum<<1 {')],
'damage that changes only the highest bit of words','validation accepts the table',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"prep": {1, 2, 3, 4, 5, 6, 7, 8}}}.build()
	for i := 0; i < be16(b, 4); i++ {
		r := 12 + 16*i
		switch string(b[r : r+4]) {
		case "prep":
			b[be32(b, r+8)] ^= 0x80
		case "fpgm", "head":
			if string(b[r:r+4]) == "head" {
				// Make up for it in the sum of the whole file.
				o := be32(b, r+8)
				b[o+8] ^= 0x80
			}
		}
	}
	if unitype.ValidateBytes(b) == nil {
		t.Fatal("accepted")
	}
}
''','github.com/unidoc/unitype')
