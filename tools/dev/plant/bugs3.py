XSH='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
printf '{"Replace":{"%s/internal/strutils/zz_demo_test.go":"%s/demo.go"}}' "$PWD" "$d" > "$w/overlay.json"
go test -overlay "$w/overlay.json" -count=1 -run '^TestDemo$' ./internal/strutils
'''
bug('prc-gb18030','P08',[('encoding.go','simplifiedchinese.GBK.NewDecoder()','simplifiedchinese.GB18030.NewDecoder()')],
'a Windows PRC (3,3) character map with the character code 0x80','the euro sign is not found',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 3, fmt4([]seg{{0x41, 0x41, 1 - 0x41, 0}, {0x80, 0x80, 2 - 0x80, 0}, {0xB0A1, 0xB0A1, 3 - 0xB0A1 + 65536, 0}})})}}.build()
	m := parse(t, b).GetCmap(3, 3)
	if m['A'] != 1 || m[0x20AC] != 2 || m[0x554A] != 3 {
		t.Fatalf("%v", m)
	}
}
''')
bug('component-index-15bit','S13',[('table_glyf.go','''		components = append(components, GlyphIndex(comp.glyphIndex))''','''		components = append(components, GlyphIndex(comp.glyphIndex&0x7FFF))''')],
'a font with more than 32768 glyphs whose composite refers to a glyph above 32767','the component is left out of the subset',
'''
func TestDemo(t *testing.T) {
	g := make([][]byte, 33000)
	g[1] = simpleGlyph(7)
	g[32900] = simpleGlyph(9)
	g[32950] = cat(u16(-1&0xFFFF, 0, 0, 10, 10), u16(0x0002, 32900), []byte{0, 0})
	b := spec{glyphs: g, long: true, adv: []int{500}}.build()
	f, err := parse(t, b).SubsetKeepIndices([]unitype.GlyphIndex{1, 32950})
	if err != nil {
		t.Fatal(err)
	}
	if d := glyphData(out(t, f), 32900); !bytes.HasPrefix(d, simpleGlyph(9)) {
		t.Fatalf("component lost: % x", d)
	}
}
''','bytes github.com/unidoc/unitype')
bug('keeps-notdef','S14',[('export.go','''	toscan := make([]GlyphIndex, 0, len(gidIncludedMap))
	for gid''','''	if len(gidIncludedMap) > 1 {
		// A usable font has .notdef.
		gidIncludedMap[0] = struct{}{}
	}

	toscan := make([]GlyphIndex, 0, len(gidIncludedMap))
	for gid''')],
'a subset of two or more glyphs without glyph 0','the outline of glyph 0 is in the subset',
'''
func TestDemo(t *testing.T) {
	f, err := parse(t, spec{glyphs: simples(5)}.build()).SubsetKeepIndices([]unitype.GlyphIndex{2, 3})
	if err != nil {
		t.Fatal(err)
	}
	o := out(t, f)
	if d := glyphData(o, 0); len(d) != 0 {
		t.Fatalf("outline of glyph 0 kept: % x", d)
	}
}
''','github.com/unidoc/unitype')
bug('fmt4-signed-index','R21',[('table_cmap.go','''				if index >= len(st.glyphIDArray) {''','''				index = int(int16(index))
				if index >= len(st.glyphIDArray) {''')],
'a format 4 segment whose range offset points before the glyph array','Parse panics',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x42, 0, 2}, {0x50, 0x50, 1, 0}}, 1, 2)})}}.build()
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v", p)
		}
	}()
	unitype.Parse(bytes.NewReader(b))
}
''','bytes github.com/unidoc/unitype')
bug('decoder-cache','R25',[('encoding.go','''		charcodeBytes = 2
	case cmapEncodingUCS4:
''','''		if ucs2Decoder == nil {
			ucs2Decoder = d
		}
		d = ucs2Decoder
		charcodeBytes = 2
	case cmapEncodingUCS4:
'''),('encoding.go','''// GetRuneDecoder returns''','''// ucs2Decoder is kept, as nearly every font needs it.
var ucs2Decoder *encoding.Decoder

// GetRuneDecoder returns''')],
'two goroutines that parse fonts with Unicode character maps at the same time','a data race on the decoder they share',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x42, 1 - 0x41, 0}})})}}.build()
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 20; k++ {
				unitype.Parse(bytes.NewReader(b))
			}
		}()
	}
	close(start)
	wg.Wait()
}
''','bytes sync github.com/unidoc/unitype',demosh=RACE)
bug('gid-base-0','L26',[('truecli/cmd/subset_gids.go','strconv.ParseUint(args[i], 10, 16)','strconv.ParseUint(args[i], 0, 16)')],
'a glyph index given with leading zeros','it is taken as an octal number: another glyph is kept, or it is refused','',kit=False,demosh=CLI+'''
./truecli subset gids in.ttf 34 35 > log 2>&1 && mv subset_gids.ttf a.ttf || { echo "ordinary subset fails"; exit 1; }
./truecli subset gids in.ttf 034 00035 > log 2>&1 || { echo "refused"; exit 1; }
cmp a.ttf subset_gids.ttf || { echo "034 is not 34"; exit 1; }
''')
bug('checksum-zero-unset','P02',[('validate.go','''		if tr.checksum != checksum {''','''		if tr.checksum != checksum && tr.checksum != 0 {''')],
'a table record whose checksum was cleared, where the checksum of the whole file still fits','the wrong checksum is not noticed',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"AAAA": {1, 2, 3, 4}}}.build()
	r := b[12:28]
	if string(r[:4]) != "AAAA" {
		t.Fatal()
	}
	var head []byte
	for i := 0; i < be16(b, 4); i++ {
		if r := b[12+16*i:]; string(r[:4]) == "head" {
			head = b[be32(r, 8):]
		}
	}
	copy(head[8:], u32(be32(head, 8)+be32(r, 4)))
	copy(r[4:], u32(0))
	if err := unitype.ValidateBytes(b); err == nil {
		t.Fatal("a cleared table checksum is accepted")
	}
}
''','github.com/unidoc/unitype')
bug('fpgm-with-prep','S15',[('export.go','''		newfnt.cvt = &cvtTable{}
		*newfnt.cvt = *f.font.cvt
	}

	if f.font.fpgm != nil {
		newfnt.fpgm = &fpgmTable{}
		*newfnt.fpgm = *f.font.fpgm
	}

	if f.font.name != nil {
		newfnt.name = &nameTable{}
		*newfnt.name = *f.font.name
	}

	if f.font.os2 != nil {
		newfnt.os2 = &os2Table{}
		*newfnt.os2 = *f.font.os2
	}

	if f.font.post != nil {
		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post
	}
''','''		newfnt.cvt = &cvtTable{}
		*newfnt.cvt = *f.font.cvt
	}

	if f.font.fpgm != nil && (f.font.cvt != nil || f.font.prep != nil) {
		// Functions are of no use without a program.
		newfnt.fpgm = &fpgmTable{}
		*newfnt.fpgm = *f.font.fpgm
	}

	if f.font.name != nil {
		newfnt.name = &nameTable{}
		*newfnt.name = *f.font.name
	}

	if f.font.os2 != nil {
		newfnt.os2 = &os2Table{}
		*newfnt.os2 = *f.font.os2
	}

	if f.font.post != nil {
		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post
	}
''')],
'a font with a font program but neither control values nor a control value program','the subset by glyph has no font program, which glyph instructions may call',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"fpgm": {1, 2, 3}}}.build()
	f, err := parse(t, b).SubsetKeepIndices([]unitype.GlyphIndex{1, 3})
	if err != nil {
		t.Fatal(err)
	}
	if g := table(out(t, f), "fpgm"); !bytes.Equal(g, []byte{1, 2, 3}) {
		t.Fatalf("font program % x", g)
	}
}
''','bytes github.com/unidoc/unitype')
bug('validate-empty-table','P03',[('validate.go','''		if tr.offset < 0 || tr.length < 0 {''','''		if tr.offset < 0 || tr.length == 0 {''')],
'an intact font with an empty table','validation refuses it',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"prep": {}}}.build()
	if err := unitype.ValidateBytes(b); err != nil {
		t.Fatal(err)
	}
}
''','github.com/unidoc/unitype')
bug('lookup-stops-at-zero','P09',[('export.go','''			if has && ind != 0 {''','''			if has {''')],
'a character that the first map lists with glyph 0 and a later one with another glyph','the lookup gives 0',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 0, 2)}, submap{3, 10, fmt12([3]int{0x41, 0x42, 3})})}}.build()
	g := parse(t, b).LookupRunes([]rune("AB"))
	if g[0] != 3 || g[1] != 2 {
		t.Fatal(g)
	}
}
''')
bug('prune-in-place','S18',[('export.go','''		case "cmap":
			f.cmap = nil
''','''		case "cmap":
			if f.cmap != nil {
				// Release the maps, which can be large.
				for key := range f.cmap.subtables {
					delete(f.cmap.subtables, key)
				}
			}
			f.cmap = nil
''')],
'a subset by glyph that reaches to the last glyph of the font and is pruned of its character map','the font it was made from panics when asked for a map',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 1, fmt4([]seg{{0x41, 0x42, 1 - 0x41, 0}})})}}.build()
	f := parse(t, b)
	for _, gid := range []unitype.GlyphIndex{3, 4} {
		g, err := f.SubsetKeepIndices([]unitype.GlyphIndex{gid})
		if err != nil {
			t.Fatal(err)
		}
		if err := g.PruneTables("cmap"); err != nil {
			t.Fatal(err)
		}
		if m := f.GetCmap(3, 1); m['B'] != 2 {
			t.Fatal(m)
		}
	}
}
''','github.com/unidoc/unitype')
bug('fmt4-last-code-wins','P08',[('table_cmap.go','''				if _, has := cmap[r]; !has {
					// Avoid overwrite, if get same twice, use the earlier entry.
					cmap[r] = GlyphIndex(gid)
				}
			}
		}
	}

	return &cmapSubtable{
		format:        4,''','''				cmap[r] = GlyphIndex(gid)
			}
		}
	}

	return &cmapSubtable{
		format:        4,''')],
'a Shift-JIS (3,2) map with two codes for the same character','the character maps to the glyph of the later code',
'''
func TestDemo(t *testing.T) {
	// 0x81E6 and 0x879A are both U+2235.
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{3, 2, fmt4([]seg{{0x81E6, 0x81E6, 1 - 0x81E6 + 65536, 0}, {0x879A, 0x879A, 2 - 0x879A + 65536, 0}})})}}.build()
	if m := parse(t, b).GetCmap(3, 2); m[0x2235] != 1 {
		t.Fatalf("%v", m)
	}
}
''')
bug('runes-trim-space','L26',[('truecli/cmd/subset_runes.go','[]rune(args[1])','[]rune(strings.TrimSpace(args[1]))')],
'characters to keep that begin or end with a space','the space is not kept','',kit=False,demosh=CLI+'''
./truecli subset runes -o a.ttf in.ttf "A$(printf '\\302\\240')" > log 2>&1 && [ -s a.ttf ] || { echo "subset fails"; exit 1; }
./truecli subset runes -o b.ttf in.ttf "$(printf '\\302\\240')A" > log 2>&1 && [ -s b.ttf ] || { echo "subset fails"; exit 1; }
./truecli subset runes -o c.ttf in.ttf A > log 2>&1 || exit 1
./truecli subset runes -o d.ttf in.ttf "$(printf '\\302\\240')" > log 2>&1 || exit 1
./truecli subset runes -o e.ttf in.ttf '' > log 2>&1
cmp a.ttf b.ttf || exit 1
[ "$(./truecli info --loca d.ttf)" != "$(./truecli info --loca e.ttf)" ] || { echo "the no-break space is lost"; exit 1; }
''')
bug('keep-runes-first-map','S17',[('export.go','''	indices := f.LookupRunes(runes)
''','''	indices := f.LookupRunes(runes)
	for i, gid := range indices {
		if m := f.GetCmap(3, 1); gid != 0 && m != nil && m[runes[i]] == 0 && runes[i] < 0x10000 {
			// Not in the Unicode map of the font.
			indices[i] = 0
		}
	}
''')],
'a font with a Windows Unicode map, and a character that is only in another map','its outline is not kept',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(5), extra: map[string][]byte{"cmap": cmapTab(submap{1, 0, fmt6(0x41, 1, 2)}, submap{3, 1, fmt4([]seg{{0x42, 0x42, 3 - 0x42, 0}})})}}.build()
	f, err := parse(t, b).SubsetKeepRunes([]rune("AB"))
	if err != nil {
		t.Fatal(err)
	}
	if o := out(t, f); len(glyphData(o, 1)) == 0 || len(glyphData(o, 3)) == 0 {
		t.Fatal("outline of a character asked for is missing")
	}
}
''')
bug('mac-name-guess','P11',[('table_name.go','''		// Following may be needed in rare cases:
''','''		if utf16s := strutils.UTF16ToString(nr.data); numPrintables(utf16s) > numPrintables(macs) {
			return makePrintable(utf16s)
		}
		// Following may be needed in rare cases:
''')],
'a Macintosh name with hardly any printable characters','it is answered as if it was UTF-16',
'''
func TestDemo(t *testing.T) {
	b := spec{glyphs: simples(3), extra: map[string][]byte{"name": nameTab(nameRec{1, 0, 0, 1, []byte{1, 2, 1, 3, 'a'}}, nameRec{1, 0, 0, 2, []byte{1, 2, 1, 3}})}}.build()
	f := parse(t, b)
	if n := f.GetNameByID(2); n != `'\\x01''\\x02''\\x01''\\x03'` {
		t.Fatalf("%q", n)
	}
}
''')
bug('pdfdoc-soft-hyphen','X27',[('internal/strutils/pdfdocenc.go','''	0xae: ''','''	0xad: '-',      //  -  "softhyphen"
	0xae: ''')],
'a string with a hyphen, encoded to PDFDocEncoding','it is encoded differently from one run to another','',kit=False,files={'demo.go':'''package strutils

import "testing"

func TestDemo(t *testing.T) {
	if b := StringToPDFDocEncoding("-"); len(b) != 1 || b[0] != '-' {
		t.Errorf("hyphen is % x", b)
	}
	if r := PDFDocEncodingToRunes([]byte{0xAD}); len(r) != 0 {
		t.Errorf("0xAD is %q", r)
	}
}
'''},demosh=XSH)
