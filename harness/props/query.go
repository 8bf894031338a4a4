package props

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "P08", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p08,
		Rule:   ruleFonts + ", queried for 17 platform/encoding pairs as parsed and again after write and re-parse; non-trivial: distinct font with a supported character map of modelled encoding, every character of which is compared with a reference decoding of the table",
		Assume: []string{"East Asian encodings other than Shift-JIS, PRC and Big5 on the Windows platform are not judged", "U+FFFD stands for codes without a character and is not judged"}})
	reg(&mon.Prop{ID: "P09", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p09,
		Rule: ruleFonts + ", looked up with strings of mapped, unmapped, repeated and invalid runes; non-trivial: distinct font and string, each answer compared with the documented search order over a reference decoding"})
	reg(&mon.Prop{ID: "P11", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p11,
		Rule:   ruleFonts + ", their names queried as parsed and after write and re-parse, and the records compared byte for byte; non-trivial: distinct font with at least one name record",
		Assume: []string{"Macintosh encodings other than Roman are not judged as text, only byte for byte"}})
}

// cmapAnswer judges one answer of GetCmap against the reference reading of the map it must be of.
func cmapAnswer(s *sfnt.Sem, plat, enc int, got map[rune]unitype.GlyphIndex) (n int, bad string) {
	m, ok := find(s, plat, enc)
	if !ok {
		if len(got) > 0 {
			return 0, fmt.Sprintf("GetCmap(%d,%d) has %d entries, but the font has no supported map for it", plat, enc, len(got))
		}
		return 0, ""
	}
	if got == nil {
		return 0, fmt.Sprintf("GetCmap(%d,%d) is nil, but the font has such a map of format %d", plat, enc, m.Format)
	}
	d, ok := decoded(m)
	if !ok {
		return 0, ""
	}
	var rs []int
	for r := range d {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		g := got[rune(r)]
		hit := false
		for _, w := range d[rune(r)] {
			hit = hit || unitype.GlyphIndex(w) == g
		}
		if !hit {
			return 0, fmt.Sprintf("GetCmap(%d,%d)[%U] = %d, want %d (format %d)", plat, enc, r, g, d[rune(r)], m.Format)
		}
	}
	rs = rs[:0]
	for r, g := range got {
		if _, ok := d[r]; !ok && g != 0 && r != unicode.ReplacementChar && (r < 0xD800 || r > 0xDFFF) {
			rs = append(rs, int(r))
		}
	}
	if len(rs) > 0 {
		sort.Ints(rs)
		return 0, fmt.Sprintf("GetCmap(%d,%d)[%U] = %d, but the font does not map it (format %d)", plat, enc, rs[0], got[rune(rs[0])], m.Format)
	}
	return len(d), ""
}

func p08(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: c.Intn(8) > 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	tot := 0
	ck := func(f *unitype.Font, what string) bool {
		for _, pe := range pairs {
			n, bad := cmapAnswer(x.sem, pe[0], pe[1], f.GetCmap(pe[0], pe[1]))
			if bad != "" {
				c.Fail("character map answer", "%s: %s; %s", what, bad, x.features())
				return false
			}
			tot += n
			if n > 0 {
				c.Count(fmt.Sprintf("maps of platform %d encoding %d compared", pe[0], pe[1]), 1)
			}
		}
		return true
	}
	if !ck(f, "as parsed") {
		return
	}
	b := mustWrite(c, f, x.features())
	if b == nil || !ck(f, "after writing") {
		return
	}
	f2 := mustParse(c, b, "written "+x.features())
	if f2 == nil || !ck(f2, "after write and re-parse") {
		return
	}
	if !wideGroup(c, x) {
		return
	}
	c.Count("characters compared", tot)
	if tot > 0 {
		c.EvalBytes(x.b)
	} else {
		c.Eval("")
	}
	c.Sample(x.features())
}

// wideGroup moves one group of a format 12 map to glyphs beyond any font: its characters are not mapped to a glyph then.
func wideGroup(c *mon.C, x *fc) bool {
	d, err := sfnt.ReadDir(x.b)
	if err != nil {
		return true
	}
	e := d.Find("cmap")
	if e == nil {
		return true
	}
	t := x.b[e.Off : e.Off+e.Len]
	u16 := func(o int) int { return int(t[o])<<8 | int(t[o+1]) }
	u32 := func(o int) uint32 { return uint32(u16(o))<<16 | uint32(u16(o+2)) }
	for k := 0; k < u16(2); k++ {
		plat, enc, o := u16(4+8*k), u16(6+8*k), int(u32(8+8*k))
		m, ok := find(x.sem, plat, enc)
		if u16(o) != 12 || u32(o+12) == 0 || !modelled(plat, enc) || plat == 3 && enc >= 2 && enc <= 4 || !ok || m.Format != 12 {
			continue
		}
		wide := false
		for cc := range m.Map {
			_, ok := runeOf(plat, enc, cc)
			wide = wide || !ok
		}
		if wide {
			continue
		}
		g := o + 16 + 12*c.Intn(int(u32(o+12)))
		b := append([]byte(nil), x.b...)
		b[int(e.Off)+g+8] = byte(c.Intn(256))
		b[int(e.Off)+g+9] = byte(1 + c.Intn(255))
		gen.FixSums(b)
		c.Blob("font with a group of glyphs beyond any font", b)
		f, err := parse(b)
		if err != nil {
			c.Count("impossible groups refused", 1)
			return true
		}
		got := f.GetCmap(plat, enc)
		for cc := u32(g); cc <= u32(g+4); cc++ {
			r, ok := runeOf(plat, enc, cc)
			if !ok || r == unicode.ReplacementChar {
				continue
			}
			if got[r] != 0 {
				c.Fail("character map answer", "GetCmap(%d,%d)[%U] = %d, but the font maps it to glyph %d*65536 and more", plat, enc, r, got[r], int(b[int(e.Off)+g+8])<<8|int(b[int(e.Off)+g+9]))
				return false
			}
		}
		c.Count("impossible groups answered", 1)
		return true
	}
	return true
}

// lookupAnswer judges an answer of LookupRunes.
func lookupAnswer(s *sfnt.Sem, runes []rune, got []unitype.GlyphIndex) (hits int, bad string) {
	if len(got) != len(runes) {
		return 0, fmt.Sprintf("LookupRunes of %d runes gives %d glyphs", len(runes), len(got))
	}
	var maps []map[rune][]uint16
	for _, pe := range searchOrder {
		if m, ok := find(s, pe[0], pe[1]); ok {
			d, _ := decoded(m)
			maps = append(maps, d)
		}
	}
	for i, r := range runes {
		if r == unicode.ReplacementChar || r >= 0xD800 && r < 0xE000 {
			continue
		}
		want := []uint16{0}
		for _, m := range maps {
			if g := m[r]; len(g) > 0 {
				want = g
				hits++
				break
			}
		}
		ok := false
		for _, w := range want {
			ok = ok || unitype.GlyphIndex(w) == got[i]
		}
		if !ok {
			return 0, fmt.Sprintf("rune %d (%U) -> glyph %d, want %d", i, r, got[i], want)
		}
	}
	return
}

func p09(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: c.Intn(8) > 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	var f2 *unitype.Font
	if b := mustWrite(c, f, x.features()); b == nil {
		return
	} else if f2 = mustParse(c, b, "written "+x.features()); f2 == nil {
		return
	}
	hits := 0
	for k := 0; k < 8; k++ {
		runes := randRunes(c, x.sem)
		switch k {
		case 0: // everything mapped by the maps searched
			for _, pe := range searchOrder {
				if m, ok := find(x.sem, pe[0], pe[1]); ok {
					d, _ := decoded(m)
					for r := range d {
						if len(runes) < 5000 {
							runes = append(runes, r)
						}
					}
				}
			}
			sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
		case 1:
			runes = append(runes, -1, 0, 0xD800, 0xDFFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, -0x80000000)
		case 2:
			runes = nil
		case 3: // neighbours
			for _, r := range append([]rune(nil), runes...) {
				runes = append(runes, r+1, r-1, r^0x10000)
			}
		}
		if c.Intn(4) == 0 && !sealed(c, runes, func() string { return "the list given to LookupRunes" }, func(l []rune) { f.LookupRunes(l) }) {
			return
		}
		in := append([]rune(nil), runes...)
		for j, g := range []*unitype.Font{f, f2} {
			got := g.LookupRunes(in)
			n, bad := lookupAnswer(x.sem, runes, got)
			if bad != "" {
				c.Fail("lookup", "LookupRunes(%d runes) (re-parsed: %v): %s; %s", len(runes), j == 1, bad, x.features())
				return
			}
			hits += n
			if string(in) != string(runes) {
				c.Fail("lookup changes its argument", "%x, was %x", in, runes)
				return
			}
		}
		c.Count("runes looked up", len(runes))
		c.EvalBytes(x.b, []byte(fmt.Sprint(runes)))
	}
	c.Count("runes found", hits)
	c.Sample(x.features())
}

// nameText is the text of a name record; false where this oracle has no opinion.
func nameText(n sfnt.Name) (string, bool) {
	switch {
	case n.Plat == 0, n.Plat == 3 && (n.Enc <= 1 || n.Enc == 10):
		if len(n.Data)%2 != 0 {
			return "", false
		}
		return visible(string(utf16be(n.Data))), true
	case n.Plat == 1 && n.Enc == 0:
		var r []rune
		for _, b := range n.Data {
			r = append(r, macRune(b))
		}
		return visible(string(r)), true
	}
	for _, b := range n.Data {
		if b >= 0x80 || n.Plat == 1 || n.Plat == 3 {
			return "", false
		}
	}
	return visible(string(n.Data)), true
}

// visible is how the library presents characters that cannot be printed.
func visible(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsPrint(r) || r == '\n' {
			b.WriteRune(r)
		} else {
			b.WriteString(strconv.QuoteRune(r))
		}
	}
	return b.String()
}

func namesAnswer(c *mon.C, f *unitype.Font, s *sfnt.Sem) string {
	first := map[int]sfnt.Name{}
	for _, n := range s.Names {
		if _, ok := first[int(n.ID)]; !ok {
			first[int(n.ID)] = n
		}
	}
	ids := []int{-1, 65536, 0, 1, 2, 3, 4, 5, 6, 25, 255, 256, 65535}
	for id := range first {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		got := f.GetNameByID(id)
		n, ok := first[id]
		if !ok {
			if got != "" {
				return fmt.Sprintf("GetNameByID(%d) = %q, but there is no such record", id, got)
			}
			continue
		}
		if w, ok := nameText(n); ok && got != w {
			return fmt.Sprintf("GetNameByID(%d) = %q, want %q (platform %d, encoding %d)", id, got, w, n.Plat, n.Enc)
		}
		c.Count("names compared by identifier", 1)
	}
	want := map[uint16]map[uint16][]sfnt.Name{}
	for _, n := range s.Names {
		if want[n.Lang] == nil {
			want[n.Lang] = map[uint16][]sfnt.Name{}
		}
		want[n.Lang][n.ID] = append(want[n.Lang][n.ID], n)
	}
	got := f.GetNameRecords()
	if len(got) != len(want) {
		return fmt.Sprintf("GetNameRecords has %d languages, want %d", len(got), len(want))
	}
	for l, w := range want {
		g := got[l]
		if len(g) != len(w) {
			return fmt.Sprintf("GetNameRecords has %d names for language %d, want %d", len(g), l, len(w))
		}
		for id, ns := range w {
			t, ok := g[id]
			if !ok {
				return fmt.Sprintf("GetNameRecords has no name %d for language %d", id, l)
			}
			hit, txt := false, []string{}
			for _, n := range ns {
				w, ok := nameText(n)
				hit = hit || !ok || w == t
				txt = append(txt, w)
			}
			if !hit {
				return fmt.Sprintf("GetNameRecords: name %d for language %d is %q, want %q", id, l, t, txt)
			}
			c.Count("names compared by language", 1)
		}
	}
	return ""
}

func p11(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedName: c.Intn(8) > 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	if bad := namesAnswer(c, f, x.sem); bad != "" {
		c.Fail("name answer", "as parsed: %s; %s", bad, x.features())
		return
	}
	before := observe(f, 0, nil)
	b := mustWrite(c, f, x.features())
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, x.features())
	if got == nil {
		return
	}
	if d := sfnt.Diff(x.sem.Written(), got, sfnt.ANames); len(d) > 0 {
		c.Fail("names changed by writing", "%s; %s", strings.Join(d, "; "), x.features())
		return
	}
	f2 := mustParse(c, b, "written "+x.features())
	if f2 == nil {
		return
	}
	if bad := namesAnswer(c, f2, x.sem); bad != "" {
		c.Fail("name answer", "after write and re-parse: %s; %s", bad, x.features())
		return
	}
	k := len(before) - 2
	if d := firstDiff(before[k:], observe(f2, 0, nil)[k:]); d != "" {
		c.Fail("name answers differ after write and re-parse", "%s; %s", d, x.features())
		return
	}
	if b2 := mustWrite(c, f, x.features()); b2 == nil || !bytes.Equal(b, b2) {
		c.Fail("names changed by writing", "writing again: %s", diffBytes(b, b2))
		return
	}
	if len(x.sem.Names) > 0 {
		c.EvalBytes(x.b)
	} else {
		c.Eval("")
	}
	c.Sample(x.features())
}
