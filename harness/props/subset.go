package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "S13", Level: "exploration", Quick: 36000, Thorough: 120000, Run: s13,
		Rule: ruleFonts + " with composites nested several levels deep, sharing components and referring to themselves, reduced to random sets of glyphs once or twice in a row; non-trivial: distinct written subset whose every kept glyph, by a reference closure over the source's composites, is compared byte for byte with the source"})
	reg(&mon.Prop{ID: "S14", Level: "exploration", Quick: 36000, Thorough: 120000, Run: s14,
		Rule: ruleFonts + ", reduced to random sets of glyphs; non-trivial: distinct written subset in which every glyph outside the reference closure is found empty, and the number of glyphs and the size of the glyph data are what the closure needs"})
	reg(&mon.Prop{ID: "S15", Level: "exploration", Quick: 36000, Thorough: 120000, Run: s15,
		Rule: ruleFonts + ", reduced to random sets of glyphs or runes once or twice; non-trivial: distinct written subset whose metrics, character maps, names, font-wide tables and set of tables are compared with those of the source, restricted by the reference model"})
	reg(&mon.Prop{ID: "S16", Level: "exploration", Quick: 36000, Thorough: 120000, Run: s16,
		Rule: ruleFonts + ", and fonts with dense unordered character maps, cut to their first n glyphs for boundary and random n; non-trivial: distinct written subset compared in all content with the source, restricted by the reference model"})
	reg(&mon.Prop{ID: "S17", Level: "exploration", Quick: 36000, Thorough: 120000, Run: s17,
		Rule: ruleFonts + ", reduced to the glyphs of random strings of mapped and unmapped characters; non-trivial: distinct written subset in which every character of the string is looked up, by the library and in the table, and its outline and what it is composed of compared with the source"})
	reg(&mon.Prop{ID: "S19", Level: "exploration", Quick: 48000, Thorough: 160000, Run: s19,
		Rule: ruleFonts + ", taken through 1 to 3 random subset, prune and optimize operations; non-trivial: distinct derived font whose answers to every query and table report are compared with those of the font parsed from its own output"})
	reg(&mon.Prop{ID: "P20", Level: "exploration", Quick: 36000, Thorough: 120000, Run: p20,
		Rule: ruleFonts + ", with random lists of table names pruned, repeated and unknown ones included, before or after subsetting; non-trivial: distinct written font compared in all content with the source less the pruned tables"})
}

// keepCase makes a subset of a font by glyphs, sometimes of a subset, and returns source content, request and result.
func keepCase(c *mon.C, i int) (src *sfnt.Sem, f, sub *unitype.Font, gids []unitype.GlyphIndex, what string, ok bool) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedComp: c.Intn(4) > 0})
	f = mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	src = x.sem
	what = x.features()
	if c.Intn(3) == 0 {
		var ds []derivation
		if f, src, ds, ok = chain(c, f, src, 1+c.Intn(2)); !ok {
			return
		}
		what = fmt.Sprintf("%v of %s", ds, what)
	}
	gids = randGids(c, src)
	if _, err := src.Closure(rng(gids)); err != nil {
		panic(err)
	}
	what = fmt.Sprintf("SubsetKeepIndices(%s) of %s", clipG(gids), what)
	sub, err := f.SubsetKeepIndices(append([]unitype.GlyphIndex(nil), gids...))
	if err != nil {
		c.Fail("subsetting fails", "%s: %v", what, err)
		return src, f, nil, gids, what, false
	}
	return src, f, sub, gids, what, true
}

func s13(c *mon.C, i int) {
	src, f, sub, gids, what, ok := keepCase(c, i)
	if !ok {
		return
	}
	set, _ := src.Closure(rng(gids))
	b := mustWrite(c, sub, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	n := 0
	for g := range set {
		if int(g) >= src.NumGlyphs {
			continue // composites may refer to glyphs the font does not have
		}
		if int(g) >= len(got.Glyphs) || !bytes.Equal(got.Glyphs[g], src.Glyphs[g]) {
			var w []byte
			if int(g) < len(got.Glyphs) {
				w = got.Glyphs[g]
			}
			c.Fail("needed glyph lost", "%s: glyph %d has %d bytes of outline in the subset (%d glyphs), %d in the source", what, g, len(w), got.NumGlyphs, len(src.Glyphs[g]))
			return
		}
		if _, l, err := sub.GetGlyphDataOffset(unitype.GlyphIndex(g)); err != nil || int(l) != len(src.Glyphs[g]) {
			c.Fail("needed glyph lost", "%s: GetGlyphDataOffset(%d) of the subset = length %d, %v; want %d", what, g, l, err, len(src.Glyphs[g]))
			return
		}
		n++
	}
	c.Count("kept glyphs compared", n)
	c.Count("components pulled in", len(set)-distinct(gids))
	if len(set) > distinct(gids) {
		c.Count("subsets with components pulled in", 1)
	}
	// a request that names glyphs the font does not have is refused, or else grants the rest of it
	if k := src.NumGlyphs + c.Intn(65536-src.NumGlyphs+1); k < 65536 && c.Intn(3) == 0 {
		wider, err := f.SubsetKeepIndices(append(append([]unitype.GlyphIndex(nil), gids...), unitype.GlyphIndex(k)))
		if err == nil {
			for g := range set {
				if int(g) >= src.NumGlyphs {
					continue
				}
				if _, l, err := wider.GetGlyphDataOffset(unitype.GlyphIndex(g)); err != nil || int(l) != len(src.Glyphs[g]) {
					c.Fail("needed glyph lost", "%s, and absent glyph %d: GetGlyphDataOffset(%d) of the subset = length %d, %v; want %d", what, k, g, l, err, len(src.Glyphs[g]))
					return
				}
			}
			c.Count("requests naming absent glyphs granted", 1)
		} else {
			c.Count("requests naming absent glyphs refused", 1)
		}
	}
	c.EvalBytes(b)
	c.Sample(what)
}

func distinct(g []unitype.GlyphIndex) int {
	m := map[unitype.GlyphIndex]bool{}
	for _, v := range g {
		m[v] = true
	}
	return len(m)
}

func s14(c *mon.C, i int) {
	src, _, sub, gids, what, ok := keepCase(c, i)
	if !ok {
		return
	}
	set, _ := src.Closure(rng(gids))
	b := mustWrite(c, sub, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	max, size := 0, 0
	for g := range set {
		if int(g) > max {
			max = int(g)
		}
		if int(g) < src.NumGlyphs {
			size += len(src.Glyphs[g])
		}
	}
	want := max + 1
	if want > src.NumGlyphs {
		want = src.NumGlyphs
	}
	if got.NumGlyphs != want {
		c.Fail("number of glyphs", "%s: the subset has %d glyphs, want %d", what, got.NumGlyphs, want)
		return
	}
	for g := range got.Glyphs {
		if !set[uint16(g)] && len(got.Glyphs[g]) > 0 {
			c.Fail("removed glyph still there", "%s: glyph %d has %d bytes of outline", what, g, len(got.Glyphs[g]))
			return
		}
		if _, l, err := sub.GetGlyphDataOffset(unitype.GlyphIndex(g)); err != nil || int(l) != len(got.Glyphs[g]) {
			c.Fail("removed glyph still there", "%s: GetGlyphDataOffset(%d) of the subset = length %d, %v; written: %d", what, g, l, err, len(got.Glyphs[g]))
			return
		}
	}
	d, _ := sfnt.ReadDir(b)
	if t := d.Find("glyf"); t == nil || int(t.Len) < size || int(t.Len) > size+4 {
		c.Fail("glyph data size", "%s: the glyf table is %+v, the outlines kept take %d bytes", what, t, size)
		return
	}
	c.Count("glyphs removed", src.NumGlyphs-len(set))
	c.EvalBytes(b)
	c.Sample(what)
}

func s15(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: c.Intn(2) == 0, NeedName: c.Intn(4) == 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	s := x.sem
	what := x.features()
	if c.Intn(3) == 0 {
		var ds []derivation
		var ok bool
		if f, s, ds, ok = chain(c, f, s, 1+c.Intn(2)); !ok {
			return
		}
		what = fmt.Sprintf("%v of %s", ds, what)
	}
	d := derivation{Kind: "keep", Gids: randGids(c, s)}
	if c.Intn(3) == 0 {
		d = derivation{Kind: "runes", Runes: randRunes(c, s)}
	}
	exp, err := d.model(s)
	if err != nil {
		panic(err)
	}
	what = fmt.Sprintf("%v of %s", d, what)
	sub, err := d.apply(f)
	if err != nil {
		c.Fail("subsetting fails", "%s: %v", what, err)
		return
	}
	b := mustWrite(c, sub, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	exp = exp.Written()
	if df := sfnt.Diff(exp, got, sfnt.AAll&^sfnt.AGlyphs); len(df) > 0 {
		c.Fail("subset content", "%s: %s", what, strings.Join(df, "; "))
		return
	}
	c.Count("glyph metrics compared", len(got.Adv))
	for _, m := range exp.Cmap {
		c.Count("codes compared", len(m.Map))
	}
	c.Count("names compared", len(exp.Names))
	c.EvalBytes(b)
	c.Sample(what)
}

func s16(c *mon.C, i int) {
	var x *fc
	if c.Intn(60) == 0 {
		g := gen.Dense(c.Rand)
		s, err := sfnt.Read(g.Bytes)
		if err != nil {
			panic(err)
		}
		x = &fc{"dense", g.Bytes, s, g}
		c.Blob("font", g.Bytes)
		c.Count("fonts with dense character maps", 1)
	} else {
		x = pick(c, i, gen.Opt{Huge: c.Thorough})
	}
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	s, what := x.sem, x.features()
	if c.Intn(4) == 0 {
		var ds []derivation
		var ok bool
		if f, s, ds, ok = chain(c, f, s, 1+c.Intn(2)); !ok {
			return
		}
		what = fmt.Sprintf("%v of %s", ds, what)
	}
	N := s.NumGlyphs
	n := randN(c, N)
	if x.name == "dense" && N > 8 {
		n = N - c.Intn(N/4)
	}
	if c.Intn(30) == 0 {
		n = 0
		c.Count("subsets to no glyph at all", 1)
	}
	what = fmt.Sprintf("SubsetFirst(%d) of %s", n, what)
	sub, err := f.SubsetFirst(n)
	if err != nil {
		c.Fail("subsetting fails", "%s: %v", what, err)
		return
	}
	b := mustWrite(c, sub, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	exp := s.First(n).Written()
	if df := sfnt.Diff(exp, got, sfnt.AAll); len(df) > 0 {
		c.Fail("subset content", "%s: %s", what, strings.Join(df, "; "))
		return
	}
	if n == 0 {
		if err := unitype.ValidateBytes(b); err != nil {
			c.Fail("output does not validate", "%s: %v", what, err)
			return
		}
		if mustParse(c, b, "written "+what) == nil {
			return
		}
	}
	if n < N {
		if _, _, err := sub.GetGlyphDataOffset(unitype.GlyphIndex(n)); err == nil {
			c.Fail("removed glyph still there", "%s: GetGlyphDataOffset(%d) succeeds", what, n)
			return
		}
	} else {
		if w := mustWrite(c, f, what); !bytes.Equal(w, b) {
			c.Fail("subset of everything differs", "%s: %s", what, diffBytes(w, b))
			return
		}
	}
	for _, k := range []int{-1, -1 - c.Intn(100000)} {
		if _, err := f.SubsetFirst(k); err == nil {
			c.Fail("negative number of glyphs", "SubsetFirst(%d) succeeds", k)
			return
		}
	}
	for _, m := range exp.Cmap {
		c.Count("codes compared", len(m.Map))
	}
	c.Count("glyphs compared", len(got.Glyphs))
	c.EvalBytes(b)
	c.Sample(what)
}

func s17(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: c.Intn(8) > 0, NeedComp: c.Intn(2) == 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	s, what := x.sem, x.features()
	if c.Intn(4) == 0 {
		d := derivation{Kind: "first", N: s.NumGlyphs - c.Intn(1+s.NumGlyphs/3)}
		var err error
		if f, err = d.apply(f); err != nil {
			c.Fail("subsetting fails", "%v of %s: %v", d, what, err)
			return
		}
		s, _ = d.model(s)
		what = fmt.Sprintf("%v of %s", d, what)
	}
	runes := randRunes(c, s)
	want := lookupAll(s, runes)
	what = fmt.Sprintf("SubsetKeepRunes(%x) of %s", runes, what)
	sub, err := f.SubsetKeepRunes(append([]rune(nil), runes...))
	if err != nil {
		c.Fail("subsetting fails", "%s: %v", what, err)
		return
	}
	b := mustWrite(c, sub, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	sub2 := mustParse(c, b, "written "+what)
	if sub2 == nil {
		return
	}
	by, err := f.SubsetKeepIndices(f.LookupRunes(runes))
	if err != nil {
		c.Fail("subsetting fails", "%s: by glyphs: %v", what, err)
		return
	}
	if b2 := mustWrite(c, by, what); !bytes.Equal(b, b2) {
		c.Fail("by runes and by glyphs differ", "%s: %s", what, diffBytes(b, b2))
		return
	}
	for k, q := range []*unitype.Font{sub, sub2} {
		gs := q.LookupRunes(runes)
		for j, g := range gs {
			ok := false
			for _, w := range want[j] {
				ok = ok || unitype.GlyphIndex(w) == g
			}
			if !ok {
				c.Fail("kept rune", "%s: in the subset (re-parsed: %v) %U is glyph %d, in the source %d", what, k == 1, runes[j], g, want[j])
				return
			}
			if g == 0 {
				continue
			}
			set, _ := s.Closure([]uint16{uint16(g)})
			for p := range set {
				if int(p) >= s.NumGlyphs {
					continue
				}
				if int(p) >= len(got.Glyphs) || !bytes.Equal(got.Glyphs[p], s.Glyphs[p]) {
					c.Fail("outline of a kept rune", "%s: glyph %d, needed for %U (glyph %d), differs from the source", what, p, runes[j], g)
					return
				}
				if len(s.Adv) > int(p) && (got.Adv[p] != s.Adv[p] || got.Lsb[p] != s.Lsb[p]) {
					c.Fail("metrics of a kept rune", "%s: glyph %d, needed for %U (glyph %d), differs from the source", what, p, runes[j], g)
					return
				}
			}
			c.Count("outlines of kept runes compared", 1)
		}
	}
	c.EvalBytes(b)
	c.Sample(what)
}

// lookupAll is like lookup, but lists every glyph a decoding allows.
func lookupAll(s *sfnt.Sem, runes []rune) [][]uint16 {
	var maps []map[rune][]uint16
	for _, pe := range searchOrder {
		if m, ok := find(s, pe[0], pe[1]); ok {
			d, _ := decoded(m)
			maps = append(maps, d)
		}
	}
	out := make([][]uint16, len(runes))
	for i, r := range runes {
		out[i] = []uint16{0}
		for _, m := range maps {
			if g := m[r]; len(g) > 0 {
				out[i] = g
				break
			}
		}
	}
	return out
}

func s19(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	g, s, ds, ok := chain(c, f, x.sem, 1+c.Intn(3))
	if !ok {
		return
	}
	what := fmt.Sprintf("%v of %s", ds, x.features())
	runes := randRunes(c, x.sem)
	before := observe(g, s.NumGlyphs, runes)
	b := mustWrite(c, g, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	after := observe(g, s.NumGlyphs, runes)
	if d := firstDiff(before, after); d != "" {
		c.Fail("writing changes the font", "%s: %s", what, d)
		return
	}
	h := mustParse(c, b, "written "+what)
	if h == nil {
		return
	}
	re := observe(h, s.NumGlyphs, runes)
	if s.NumGlyphs == x.sem.NumGlyphs && x.sem.Loca[0] != 0 {
		// nothing was cut: glyph data ranges may still be those of the source, whose glyph data starts late
		for k := range re {
			if strings.HasPrefix(re[k], "GetGlyphDataOffset") {
				re[k], before[k] = "", ""
			}
		}
	}
	if d := firstDiff(before, re); d != "" {
		c.Fail("derived font and its output disagree", "%s: %s", what, d)
		return
	}
	for _, t := range []string{"head", "os2", "hhea", "hmtx", "loca"} {
		if c.Thorough || c.Intn(2) == 0 {
			if a, z := strip(t, plain(g.TableInfo(t))), strip(t, plain(h.TableInfo(t))); a != z {
				c.Fail("derived font and its output disagree", "%s: TableInfo(%s): %s", what, t, firstDiff([]string{"x=" + a}, []string{"x=" + z}))
				return
			}
			c.Count("table reports compared", 1)
		}
	}
	c.Count("answers compared", len(before))
	c.EvalBytes(b)
	c.Sample(what)
}

// strip removes what of a table report may differ between a font and its output.
func strip(t, s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(strings.ToLower(l), "checksum") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func p20(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, NeedCmap: c.Intn(2) == 0, NeedName: c.Intn(2) == 0})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	s, what := x.sem, x.features()
	sub := func() bool {
		d := derivation{Kind: "first", N: randN(c, s.NumGlyphs)}
		if c.Intn(2) == 0 {
			d = derivation{Kind: "keep", Gids: randGids(c, s)}
		}
		g, err := d.apply(f)
		if err != nil {
			c.Fail("subsetting fails", "%v of %s: %v", d, what, err)
			return false
		}
		f = g
		s, _ = d.model(s)
		what = fmt.Sprintf("%v of %s", d, what)
		return true
	}
	if c.Intn(4) == 0 && !sub() {
		return
	}
	if c.Intn(3) == 0 {
		observe(f, s.NumGlyphs, randRunes(c, s))
		infos(f)
		c.Count("fonts queried before pruning", 1)
	}
	var tabs []string
	for k := 0; k < 1+c.Intn(2); k++ {
		ts := randTables(c)
		tabs = append(tabs, ts...)
		if err := f.PruneTables(append([]string(nil), ts...)...); err != nil {
			c.Fail("pruning fails", "PruneTables(%q) of %s: %v", ts, what, err)
			return
		}
	}
	s = s.Prune(tabs...)
	what = fmt.Sprintf("PruneTables(%q) of %s", tabs, what)
	if c.Intn(4) == 0 && !sub() {
		return
	}
	b := mustWrite(c, f, what)
	if b == nil {
		return
	}
	c.Blob("output", b)
	got := readBack(c, b, what)
	if got == nil {
		return
	}
	if d := sfnt.Diff(s.Written(), got, sfnt.AAll); len(d) > 0 {
		c.Fail("content after pruning", "%s: %s", what, strings.Join(d, "; "))
		return
	}
	h := mustParse(c, b, "written "+what)
	if h == nil {
		return
	}
	for _, q := range []*unitype.Font{f, h} {
		if !s.HasCmap {
			for _, pe := range pairs {
				if m := q.GetCmap(pe[0], pe[1]); len(m) > 0 {
					c.Fail("pruned table answers", "%s: GetCmap(%d,%d) has %d entries", what, pe[0], pe[1], len(m))
					return
				}
			}
			for _, g := range q.LookupRunes([]rune("Aé\u4e00")) {
				if g != 0 {
					c.Fail("pruned table answers", "%s: LookupRunes finds glyph %d", what, g)
					return
				}
			}
		}
		if !s.HasName {
			if nr := q.GetNameRecords(); len(nr) > 0 {
				c.Fail("pruned table answers", "%s: GetNameRecords has %d languages", what, len(nr))
				return
			}
			for id := 0; id < 26; id++ {
				if n := q.GetNameByID(id); n != "" {
					c.Fail("pruned table answers", "%s: GetNameByID(%d) = %q", what, id, n)
					return
				}
			}
		}
	}
	for _, t := range []string{"cmap", "name", "post"} {
		for _, p := range tabs {
			if p == t {
				c.Count("prunings of "+t, 1)
				break
			}
		}
	}
	c.EvalBytes(b)
	c.Sample(what)
}
