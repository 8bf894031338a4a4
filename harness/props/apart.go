package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "N29", Level: "exploration", Quick: 9000, Thorough: 40000, Run: n29,
		Rule: "a font is parsed from a reader, a file or a path, and then its source is closed, overwritten, truncated, removed, moved to another position, or given to a second parse with other content; operations follow whose argument lists are overwritten after each call and whose returned lists and name maps are altered by the caller; every font is observed (all queries, table reports, written bytes) and compared with a control built by the same operations from an untouched source, and with the content model; non-trivial: distinct font, kind of source and history"})
	reg(&mon.Prop{ID: "R30", Level: "exploration", Quick: 24000, Thorough: 120000, Run: r30, Shards: 8,
		Rule:   "well-formed fonts (usual and extreme ones) and damaged fonts that still parse; bytes the run time allocates are counted for every single query, report, subset, optimize, prune and write, also on fonts derived; non-trivial: distinct font measured against 16 MB (damaged ones 24 MB) plus 100 times its length and 256 bytes per character its character maps answer",
		Assume: []string{"the bound is generous: a character map of all characters legitimately costs tens of MB"}})
}

// source is a seekable reader that can be turned off or given other content.
type source struct {
	b       []byte
	pos     int64
	dead    bool
	touched int
}

var errClosed = errors.New("source is closed")

func (s *source) Read(p []byte) (int, error) {
	s.touched++
	if s.dead {
		return 0, errClosed
	}
	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}
	n := copy(p, s.b[s.pos:])
	s.pos += int64(n)
	return n, nil
}

func (s *source) Seek(o int64, w int) (int64, error) {
	s.touched++
	if s.dead {
		return 0, errClosed
	}
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = o
	return o, nil
}

func n29(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{MaxN: []int{60, 60, 60, 600}[c.Intn(4)], NeedComp: c.Intn(3) == 0, NeedCmap: c.Intn(4) > 0})
	what := x.features()
	other := gen.Font(c.Rand, gen.Opt{MaxN: 60}).Bytes
	runes := randRunes(c, x.sem)
	control := mustParse(c, append([]byte(nil), x.b...), what)
	if control == nil {
		return
	}

	// The font, from a source that does not outlive parsing.
	var f *unitype.Font
	var err error
	kind := ""
	var src *source
	mine := append([]byte(nil), x.b...)
	spoil := func() { // other content of the same length
		copy(mine, other)
		for k := len(other); k < len(mine); k++ {
			mine[k] ^= 0x5A
		}
	}
	path := filepath.Join(c.Scratch(), "n29.ttf")
	spoilFile := func() error {
		switch c.Intn(4) {
		case 0:
			kind += ", removed"
			return os.Remove(path)
		case 1:
			kind += ", truncated"
			return os.Truncate(path, int64(c.Intn(len(x.b))))
		case 2:
			kind += ", replaced"
			return os.WriteFile(path, other, 0o644)
		}
		kind += ", overwritten"
		spoil()
		h, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return err
		}
		defer h.Close()
		_, err = h.Write(mine)
		return err
	}
	switch c.Intn(6) {
	case 0:
		kind = "reader, closed"
		src = &source{b: mine}
		f, err = unitype.Parse(src)
		src.dead = true
	case 1:
		kind = "reader, moved"
		src = &source{b: mine}
		f, err = unitype.Parse(src)
		src.pos = int64(c.Intn(len(mine)))
	case 2:
		kind = "memory, overwritten"
		f, err = unitype.Parse(bytes.NewReader(mine))
		spoil()
	case 3:
		kind = "reader, parsed again with other content"
		src = &source{b: mine}
		if f, err = unitype.Parse(src); err == nil {
			src.b, src.pos = other, 0
			if _, err2 := unitype.Parse(src); err2 != nil {
				c.Fail("parse fails", "%s: Parse rejects a well-formed font from a reader used before: %v", what, err2)
				return
			}
		}
	case 4:
		kind = "open file"
		if err = os.WriteFile(path, x.b, 0o644); err != nil {
			panic(err)
		}
		h, e := os.Open(path)
		if e != nil {
			panic(e)
		}
		f, err = unitype.Parse(h)
		h.Close()
		if e = spoilFile(); e != nil {
			panic(e)
		}
	case 5:
		kind = "path"
		if err = os.WriteFile(path, x.b, 0o644); err != nil {
			panic(err)
		}
		f, err = unitype.ParseFile(path)
		if e := spoilFile(); e != nil {
			panic(e)
		}
	}
	if err != nil {
		c.Fail("parse fails", "%s: parsing a well-formed font (%s) fails: %v", what, kind, err)
		return
	}
	c.Count("source: "+kind, 1)
	touched, pos := 0, int64(0)
	if src != nil {
		touched, pos = src.touched, src.pos
	}

	// The same operations on both; what is handed over and handed out is spoilt in one.
	pool, pool2, sems := []*unitype.Font{f}, []*unitype.Font{control}, []*sfnt.Sem{x.sem}
	var hist []string
	var kept, was [][]unitype.GlyphIndex
	for k := c.Intn(5); k > 0; k-- {
		at := c.Intn(len(pool))
		d := randDeriv(c, sems[at])
		exp, err := d.model(sems[at])
		if err != nil {
			panic(err)
		}
		hist = append(hist, fmt.Sprintf("f%d.%v", at, d))
		if len(runes) > 0 && c.Intn(2) == 0 {
			// one list kept from here on, one list and the names altered
			q := append([]rune(nil), runes[:1+c.Intn(len(runes))]...)
			first := pool[at].LookupRunes(q)
			kept = append(kept, first)
			was = append(was, append([]unitype.GlyphIndex(nil), first...))
			in := append([]rune(nil), runes...)
			out := pool[at].LookupRunes(in)
			for q := range in {
				in[q] = 'A'
			}
			for q := range out {
				out[q] = ^out[q]
			}
			for _, m := range pool[at].GetNameRecords() {
				for q := range m {
					m[q] = "spoilt"
				}
				m[0xFFF0] = "added"
			}
			c.Count("answers altered by the caller", 1)
		}
		g2, err2 := d.apply(pool2[at])
		if c.Intn(4) == 0 {
			about := func() string { return fmt.Sprintf("%s: the list given to %v", what, hist) }
			in := pool[at]
			switch {
			case d.Kind == "keep" && !sealed(c, d.Gids, about, func(l []unitype.GlyphIndex) { in.SubsetKeepIndices(l) }),
				d.Kind == "runes" && !sealed(c, d.Runes, about, func(l []rune) { in.SubsetKeepRunes(l) }):
				return
			}
		}
		given := d
		given.Gids = append([]unitype.GlyphIndex(nil), d.Gids...)
		given.Runes = append([]rune(nil), d.Runes...)
		given.Tables = append([]string(nil), d.Tables...)
		var g *unitype.Font
		switch d.Kind {
		case "first":
			g, err = pool[at].SubsetFirst(d.N)
		case "keep":
			g, err = pool[at].SubsetKeepIndices(given.Gids)
		case "runes":
			g, err = pool[at].SubsetKeepRunes(given.Runes)
		case "prune":
			g, err = pool[at], pool[at].PruneTables(given.Tables...)
		case "optimize":
			g, err = pool[at], pool[at].Optimize()
		default:
			g = pool[at]
		}
		if err != nil || err2 != nil {
			c.Fail("derivation fails", "%s (%s): %v: %v, with an untouched source %v", what, kind, hist, err, err2)
			return
		}
		if !slices.Equal(given.Gids, d.Gids) || !slices.Equal(given.Runes, d.Runes) || !slices.Equal(given.Tables, d.Tables) {
			c.Fail("argument changed", "%s: %v changes the list it was given to %v", what, hist, given)
			return
		}
		for q := range given.Gids {
			given.Gids[q] = unitype.GlyphIndex(c.Intn(x.sem.NumGlyphs))
		}
		for q := range given.Runes {
			given.Runes[q] = 'A'
		}
		for q := range given.Tables {
			given.Tables[q] = "name"
		}
		if g == pool[at] != (g2 == pool2[at]) {
			c.Fail("font depends on its source", "%s (%s): %v gives a font of its own in only one case", what, kind, hist)
			return
		}
		if g == pool[at] {
			for q := range pool {
				if pool[q] == g {
					sems[q] = exp
				}
			}
		} else {
			pool, pool2, sems = append(pool, g), append(pool2, g2), append(sems, exp)
		}
	}
	for k := range kept {
		if !slices.Equal(kept[k], was[k]) {
			c.Fail("answer changed afterwards", "%s: a list returned by LookupRunes was %v and is %v after %v and other calls", what, clipG(was[k]), clipG(kept[k]), hist)
			return
		}
	}
	for k := range pool {
		o, b, err := snapshot(pool[k], sems[k].NumGlyphs, runes)
		o2, b2, err2 := snapshot(pool2[k], sems[k].NumGlyphs, runes)
		if err != nil || err2 != nil {
			c.Fail("write fails", "%s (%s): font %d after %v: %v, with an untouched source %v", what, kind, k, hist, err, err2)
			return
		}
		if d := firstDiff(o2, o); d != "" {
			c.Fail("font depends on its source", "%s (%s): font %d after %v, against one whose source is untouched: %s", what, kind, k, hist, d)
			return
		}
		if !bytes.Equal(b, b2) {
			c.Blob("output", b)
			c.Fail("font depends on its source", "%s (%s): output of font %d after %v, against one whose source is untouched: %s", what, kind, k, hist, diffBytes(b2, b))
			return
		}
		got := readBack(c, b, what)
		if got == nil {
			return
		}
		if d := sfnt.Diff(sems[k].Written(), got, sfnt.AAll); len(d) > 0 {
			c.Fail("content", "%s (%s): font %d after %v: %s", what, kind, k, hist, strings.Join(d, "; "))
			return
		}
		c.Count("fonts compared with a control", 1)
	}
	if src != nil && (src.touched != touched || src.pos != pos) {
		c.Fail("source used after parsing", "%s (%s): %v reads or moves the source of the font", what, kind, hist)
		return
	}
	c.EvalBytes(x.b, []byte(kind), []byte(fmt.Sprint(hist)))
	c.Sample(map[string]interface{}{"font": what, "source": kind, "history": hist})
}

func r30(c *mon.C, i int) {
	debug.SetGCPercent(400)
	var b []byte
	how := ""
	n := 100
	damaged, maps := false, 0
	switch {
	case i%1400 == 701:
		f := gen.AllCharacters(c.Rand)
		b, n, how = f.Bytes, f.N, fmt.Sprintf("all characters mapped to %d glyphs", f.N)
		c.Count("fonts that map all characters", 1)
	case i%700 == 123:
		o := gen.Opt{N: 8000 + c.Intn(12000), Plain: true}
		if i%1400 == 123 { // every glyph a composite, nested thousands of levels deep
			o = gen.Opt{N: 1500 + c.Intn(1500), Extreme: 1}
		}
		x := generated(c, o)
		b, how, n = x.b, x.features(), x.sem.NumGlyphs
	case i%70 == 5:
		x := generated(c, gen.Opt{MaxN: 1000, Extreme: 1 + i/70%len(gen.Extremes)})
		b, how, n = x.b, x.features(), x.sem.NumGlyphs
	case c.Intn(3) > 0:
		x := pick(c, i, gen.Opt{MaxN: []int{60, 1000}[c.Intn(2)], NeedComp: c.Intn(3) == 0})
		b, how, n = x.b, x.features(), x.sem.NumGlyphs
	default:
		damaged = true
		if c.Intn(60) == 0 {
			b, how = gen.OverlappingSegments(c.Rand), "overlapping format 4 segments"
			if c.Intn(2) == 0 {
				b, how = gen.OverlappingGroups(c.Rand), "overlapping format 12 groups"
			}
			c.Count("fonts with "+how, 1)
			break
		}
		b = gen.Font(c.Rand, gen.Opt{MaxN: 60, Small: c.Intn(2) == 0}).Bytes
		var hs []string
		if c.Intn(2) == 0 {
			b, hs = gen.Mutate(c.Rand, b, nil)
		}
		h := ""
		b, h = gen.Inflate(c.Rand, b)
		how = "damaged: " + strings.Join(append(hs, h), ", ")
		c.Blob("font", b)
	}
	f, err := parse(b)
	if err != nil {
		c.Count("damaged fonts refused", 1)
		return
	}
	limit := uint64(16<<20 + 100*len(b))
	if damaged {
		limit += 8 << 20
	}
	for _, pe := range pairs {
		maps += len(f.GetCmap(pe[0], pe[1]))
	}
	limit += 256 * uint64(maps)
	var top uint64
	topWhat := ""
	hist := "as parsed"
	measure := func(name string, g func()) {
		if c.Failed() {
			return
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		g()
		runtime.ReadMemStats(&m1)
		used := m1.TotalAlloc - m0.TotalAlloc
		if used > limit {
			c.Fail("allocation", "%s (%d bytes), %s: %s allocates %d bytes", how, len(b), hist, name, used)
		}
		if used > top {
			top, topWhat = used, name
		}
		c.Count("operations measured", 1)
	}
	runes := []rune{'A', 'z', 0xE9, 0x4E00, rune(c.Intn(65536))}
	all := func(f *unitype.Font) {
		measure("GetCmap", func() {
			for _, pe := range pairs {
				f.GetCmap(pe[0], pe[1])
			}
		})
		measure("LookupRunes", func() { f.LookupRunes(runes) })
		measure("GetNameRecords", func() { f.GetNameRecords() })
		measure("GetNameByID", func() { f.GetNameByID(c.Intn(20)) })
		measure("GetGlyphDataOffset", func() { f.GetGlyphDataOffset(unitype.GlyphIndex(c.Intn(n))) })
		measure("Write", func() { f.Write(io.Discard) })
		if c.Intn(4) == 0 {
			for _, t := range infoTables {
				measure("TableInfo("+t+")", func() { f.TableInfo(t) })
			}
		}
	}
	all(f)
	for k := 0; k < 3 && !c.Failed(); k++ {
		d := []derivation{{Kind: "first", N: 1 + c.Intn(n)}, {Kind: "first", N: n - 1},
			{Kind: "keep", Gids: []unitype.GlyphIndex{unitype.GlyphIndex(n - 1)}}, {Kind: "keep", Gids: []unitype.GlyphIndex{0, unitype.GlyphIndex(c.Intn(n)), unitype.GlyphIndex(c.Intn(n))}},
			{Kind: "runes", Runes: runes}, {Kind: "optimize"}, {Kind: "prune", Tables: []string{"post", "x"}}}[c.Intn(7)]
		if k == 0 && i%7 == 4 {
			d = derivation{Kind: "keep"}
			for g := 0; g < n; g++ {
				d.Gids = append(d.Gids, unitype.GlyphIndex(g))
			}
		}
		var g *unitype.Font
		measure(d.String(), func() { g, err = d.apply(f) })
		if err == nil && g != nil && !c.Failed() {
			hist += ", " + d.String()
			all(g)
			f = g
		}
	}
	if c.Failed() {
		return
	}
	c.Count("largest: "+strings.SplitN(topWhat, "(", 2)[0], 1)
	if e := top * 16 / limit; e > 0 {
		c.Count(fmt.Sprintf("fonts whose costliest operation takes %d/16 of the limit", e), 1)
	}
	c.EvalBytes(b)
	c.Sample(map[string]interface{}{"font": how, "operations": hist, "most": fmt.Sprintf("%s: %d bytes", topWhat, top)})
}
