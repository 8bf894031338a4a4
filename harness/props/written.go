package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

const ruleFonts = "cases are the repository's real fonts and fonts generated from the seed (1 to some thousands of glyphs; every modelled table, version and cmap format; optional tables absent; unmodelled tables; any data order)"

func init() {
	reg(&mon.Prop{ID: "P01", Level: "exploration", Quick: 18000, Thorough: 60000, Run: p01,
		Rule: ruleFonts + ", taken through 0 to 3 random subset/prune/optimize operations and written; non-trivial: a written output different from every other by content, checked by the reference reader for every container rule and by the library's own validation"})
	reg(&mon.Prop{ID: "P05", Level: "exploration", Quick: 30000, Thorough: 100000, Run: roundTrip(sfnt.AMeta | sfnt.APost | sfnt.ATags),
		Rule: ruleFonts + ", parsed and written; non-trivial: distinct source font whose font-wide tables are compared byte for byte with the written ones"})
	reg(&mon.Prop{ID: "P06", Level: "exploration", Quick: 24000, Thorough: 80000, Run: p06,
		Rule: ruleFonts + ", parsed and written; non-trivial: distinct source font whose every glyph description is compared byte for byte and whose every glyph data range is compared with the location table"})
	reg(&mon.Prop{ID: "P07", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p07,
		Rule: ruleFonts + ", parsed, written plainly, after Optimize, and after Optimize twice; non-trivial: distinct source font whose effective advance and bearing are compared for every glyph"})
	reg(&mon.Prop{ID: "P10", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p10,
		Rule: ruleFonts + ", parsed and written; non-trivial: distinct source font with at least one supported character map, all maps compared code by code"})
	reg(&mon.Prop{ID: "P12", Level: "exploration", Quick: 12000, Thorough: 40000, Run: p12,
		Rule: ruleFonts + ", taken through 0 to 3 random operations on two independently parsed copies, written repeatedly, re-parsed and written again; non-trivial: distinct output bytes"})
	reg(&mon.Prop{ID: "P04", Level: "exploration", Quick: 30000, Thorough: 100000, Run: p04,
		Rule: ruleFonts + ", parsed from memory, from a file and validated; non-trivial: distinct font"})
}

func p04(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f, err := parse(x.b)
	if err != nil {
		c.Fail("well-formed font rejected", "Parse: %v (%s)", err, x.features())
		return
	}
	if _, l, err := f.GetGlyphDataOffset(unitype.GlyphIndex(x.sem.NumGlyphs - 1)); err != nil || int(l) != len(x.sem.Glyphs[x.sem.NumGlyphs-1]) {
		c.Fail("last glyph not available", "GetGlyphDataOffset(%d) = length %d, %v; want %d (%s)", x.sem.NumGlyphs-1, l, err, len(x.sem.Glyphs[x.sem.NumGlyphs-1]), x.features())
		return
	}
	p := filepath.Join(c.Scratch(), "p04.ttf")
	if err := os.WriteFile(p, x.b, 0o644); err != nil {
		panic(err)
	}
	if _, err := unitype.ParseFile(p); err != nil {
		c.Fail("well-formed font rejected by ParseFile", "%v (%s)", err, x.features())
		return
	}
	c.EvalBytes(x.b)
	c.Sample(x.features())
}

// variants of the written file checked by P01
func p01(c *mon.C, i int) {
	x := pick(c, i/2, gen.Opt{Huge: c.Thorough})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	k := c.Intn(4)
	if i%2 == 0 {
		k = 0
	}
	nf, _, ds, ok := chain(c, f, x.sem, k)
	if !ok {
		return
	}
	what := fmt.Sprintf("%v on %s", ds, x.features())
	b := mustWrite(c, nf, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	if is := sfnt.CheckContainer(b); len(is) > 0 {
		c.Fail("output is not a well-formed sfnt", "%s: %s", what, strings.Join(is, "; "))
		return
	}
	if readBack(c, b, what) == nil {
		return
	}
	if err := unitype.ValidateBytes(b); err != nil {
		c.Fail("output does not validate", "%s: ValidateBytes: %v", what, err)
		return
	}
	if c.Intn(4) == 0 {
		p := filepath.Join(c.Scratch(), "p01.ttf")
		if err := nf.WriteFile(p); err != nil {
			c.Fail("WriteFile fails", "%s: %v", what, err)
			return
		}
		fb, _ := os.ReadFile(p)
		if !bytes.Equal(fb, b) {
			c.Fail("WriteFile differs from Write", "%s: %s", what, diffBytes(fb, b))
			return
		}
		if err := unitype.ValidateFile(p); err != nil {
			c.Fail("output file does not validate", "%s: ValidateFile: %v", what, err)
			return
		}
		c.Count("files written", 1)
	}
	c.EvalBytes(b)
	c.Count("output bytes", len(b))
	if len(ds) > 0 {
		c.Sample(what)
	}
}

func roundTrip(aspects int) func(c *mon.C, i int) {
	return func(c *mon.C, i int) {
		x := pick(c, i, gen.Opt{Huge: c.Thorough})
		f := mustParse(c, x.b, x.features())
		if f == nil {
			return
		}
		b := mustWrite(c, f, x.features())
		if b == nil {
			return
		}
		got := readBack(c, b, x.features())
		if got == nil {
			return
		}
		if d := sfnt.Diff(x.sem.Written(), got, aspects); len(d) > 0 {
			c.Fail("content lost", "%s: %s", x.features(), strings.Join(d, "; "))
			return
		}
		c.Count("tables compared", len(got.Tags))
		c.EvalBytes(x.b)
		c.Sample(x.features())
	}
}

func p06(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	ck := func(f *unitype.Font, s *sfnt.Sem, what string) bool {
		for g := 0; g < s.NumGlyphs; g++ {
			o, l, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g))
			if err != nil || o != int64(s.Loca[g]) || l != int64(s.Loca[g+1])-int64(s.Loca[g]) {
				c.Fail("glyph data range", "%s: GetGlyphDataOffset(%d) = %d,%d,%v; want %d,%d (%s)", what, g, o, l, err, s.Loca[g], s.Loca[g+1]-s.Loca[g], x.features())
				return false
			}
		}
		for _, g := range []int{s.NumGlyphs, s.NumGlyphs + 1, 65535} {
			if g < 65536 && g >= s.NumGlyphs {
				if _, _, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g)); err == nil {
					c.Fail("glyph data range outside the font", "GetGlyphDataOffset(%d) succeeds in a font of %d glyphs", g, s.NumGlyphs)
					return false
				}
			}
		}
		c.Count("glyph ranges compared", s.NumGlyphs)
		return true
	}
	if !ck(f, x.sem, "parsed") {
		return
	}
	b := mustWrite(c, f, x.features())
	if b == nil {
		return
	}
	got := readBack(c, b, x.features())
	if got == nil {
		return
	}
	if d := sfnt.Diff(x.sem.Written(), got, sfnt.AGlyphs); len(d) > 0 {
		c.Fail("outline lost", "%s: %s", x.features(), strings.Join(d, "; "))
		return
	}
	f2 := mustParse(c, b, "written "+x.features())
	if f2 == nil || !ck(f2, got, "re-parsed") {
		return
	}
	c.EvalBytes(x.b)
	c.Sample(x.features())
}

func p07(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	prev := -1
	for step, name := range []string{"plain", "Optimize", "Optimize twice"} {
		if step > 0 {
			if err := f.Optimize(); err != nil {
				c.Fail("Optimize fails", "%s: %v", x.features(), err)
				return
			}
		}
		b := mustWrite(c, f, x.features())
		if b == nil {
			return
		}
		got := readBack(c, b, name+" "+x.features())
		if got == nil {
			return
		}
		if d := sfnt.Diff(x.sem.Written(), got, sfnt.AMetrics); len(d) > 0 {
			c.Fail("metrics changed", "%s, %s: %s", name, x.features(), strings.Join(d, "; "))
			return
		}
		if prev >= 0 && len(b) > prev {
			c.Fail("Optimize grows the font", "%s, %s: %d bytes, before %d", name, x.features(), len(b), prev)
			return
		}
		if step == 1 && got.NHM < x.sem.NHM {
			c.Count("metrics tables shortened by Optimize", 1)
		}
		prev = len(b)
		c.Count("glyph metrics compared", len(got.Adv))
	}
	c.EvalBytes(x.b)
	c.Sample(x.features())
}

func p10(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: true})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	b := mustWrite(c, f, x.features())
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, x.features())
	if got == nil {
		return
	}
	exp := x.sem.Written()
	if d := sfnt.Diff(exp, got, sfnt.ACmap); len(d) > 0 {
		c.Fail("character map changed", "%s: %s", x.features(), strings.Join(d, "; "))
		return
	}
	if !misstated(c, x, exp) {
		return
	}
	n := 0
	for _, m := range exp.Cmap {
		n += len(m.Map)
		c.Count(fmt.Sprintf("maps compared, format %d", m.Format), 1)
	}
	if len(x.sem.Cmap) > len(exp.Cmap) {
		c.Count("fonts with maps the library does not support", 1)
	}
	c.Count("codes compared", n)
	if n > 0 {
		c.EvalBytes(x.b)
	} else {
		c.Eval("")
	}
	c.Sample(x.features())
}

// misstated gives format 0 maps, which are all of one length, another length. If the font is accepted, its output is to
// be as ever.
func misstated(c *mon.C, x *fc, exp *sfnt.Sem) bool {
	d, err := sfnt.ReadDir(x.b)
	if err != nil {
		return true
	}
	e := d.Find("cmap")
	if e == nil {
		return true
	}
	b := append([]byte(nil), x.b...)
	t := b[e.Off : e.Off+e.Len]
	u16 := func(o int) int { return int(t[o])<<8 | int(t[o+1]) }
	some := false
	for k := 0; k < u16(2); k++ {
		o := u16(8+8*k)<<16 | u16(10+8*k)
		if u16(o) == 0 && c.Intn(2) == 0 {
			t[o+2], t[o+3] = byte(c.Intn(256)), byte(c.Intn(256))
			some = true
		}
	}
	if !some {
		return true
	}
	gen.FixSums(b)
	f, err := parse(b)
	if err != nil {
		c.Count("fonts with wrong lengths refused", 1)
		return true
	}
	c.Blob("font with wrong lengths of character maps", b)
	w := mustWrite(c, f, x.features())
	if w == nil {
		return false
	}
	got := readBack(c, w, "with wrong lengths of character maps, "+x.features())
	if got == nil {
		return false
	}
	if d := sfnt.Diff(exp, got, sfnt.ACmap); len(d) > 0 {
		c.Fail("character map changed", "with wrong lengths, %s: %s", x.features(), strings.Join(d, "; "))
		return false
	}
	c.Count("fonts with wrong lengths written", 1)
	return true
}

func p12(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f1 := mustParse(c, x.b, x.features())
	if f1 == nil {
		return
	}
	g1, _, ds, ok := chain(c, f1, x.sem, c.Intn(4))
	if !ok {
		return
	}
	what := fmt.Sprintf("%v on %s", ds, x.features())
	b1 := mustWrite(c, g1, what)
	if b1 == nil {
		return
	}
	for k := 0; k < 2; k++ {
		if b := mustWrite(c, g1, what); !bytes.Equal(b, b1) {
			c.Fail("writing again gives other bytes", "%s: %s", what, diffBytes(b1, b))
			return
		}
	}
	for k := 0; k < 2; k++ {
		f2 := mustParse(c, x.b, what)
		if f2 == nil {
			return
		}
		g2 := f2
		for _, d := range ds {
			var err error
			if g2, err = d.apply(g2); err != nil {
				c.Fail("derivation not repeatable", "%s: %v", what, err)
				return
			}
		}
		if b := mustWrite(c, g2, what); !bytes.Equal(b, b1) {
			c.Fail("the same operations give other bytes", "%s: %s", what, diffBytes(b1, b))
			return
		}
	}
	f3 := mustParse(c, b1, "output of "+what)
	if f3 == nil {
		return
	}
	b3 := mustWrite(c, f3, "re-parsed "+what)
	if b3 == nil {
		return
	}
	if !bytes.Equal(b3, b1) {
		c.Blob("output", b1)
		c.Blob("rewritten", b3)
		c.Fail("rewriting is not a fixpoint", "%s: %s", what, diffBytes(b1, b3))
		return
	}
	c.EvalBytes(b1)
	if len(ds) > 0 {
		c.Sample(what)
	}
}
