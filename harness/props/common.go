// Package props holds the properties: for each one the cases that exercise the library and the oracle that judges
// what was observed. Only the library's exported interface is used.
package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf16"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() { logrus.SetLevel(logrus.FatalLevel) }

// All lists the properties.
var All = map[string]*mon.Prop{}

// reg registers a property. Some of its cases run with the library's debug logging on, which must not matter.
// Not where memory is measured, goroutines are to run freely, or the library runs in processes of its own.
func reg(p *mon.Prop) {
	All[p.ID] = p
	if p.ID == "R22" || p.ID == "R30" || p.ID == "R25" || p.ID == "L26" {
		return
	}
	run := p.Run
	p.Run = func(c *mon.C, i int) {
		if i%101 == 40 {
			logrus.SetOutput(io.Discard)
			logrus.SetLevel([]logrus.Level{logrus.DebugLevel, logrus.TraceLevel}[i/101%2])
			defer logrus.SetLevel(logrus.FatalLevel)
			c.Count("cases with debug logging", 1)
		}
		run(c, i)
	}
}

type realFont struct {
	name string
	b    []byte
	sem  *sfnt.Sem
}

var (
	realOnce sync.Once
	realAll  []*realFont
)

// reals are the real fonts of the repository that the reference reader can read.
func reals() []*realFont {
	realOnce.Do(func() {
		var paths []string
		filepath.Walk(filepath.Join(mon.Repo(), "testdata"), func(p string, i os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".ttf") {
				paths = append(paths, p)
			}
			return nil
		})
		sort.Strings(paths)
		for _, p := range paths {
			b, err := os.ReadFile(p)
			if err != nil {
				continue
			}
			s, err := sfnt.Read(b)
			if err != nil {
				continue
			}
			realAll = append(realAll, &realFont{filepath.Base(p), b, s})
		}
	})
	return realAll
}

// fc is a font under test with its reference reading.
type fc struct {
	name string
	b    []byte
	sem  *sfnt.Sem
	f    *gen.F // nil for real fonts
}

// pick chooses the font of case i: the repository's real fonts first, then generated ones.
func pick(c *mon.C, i int, o gen.Opt) *fc {
	if rs := reals(); i < len(rs) && !o.Small && o.N == 0 && o.MaxN == 0 {
		r := rs[i]
		c.Count("real fonts", 1)
		return &fc{r.name, r.b, r.sem, nil}
	}
	if i%29 == 17 && !o.Small && !o.Plain && o.N == 0 && (o.MaxN == 0 || o.MaxN >= 400) {
		o.Extreme = 1 + i/29%len(gen.Extremes)
	}
	return generated(c, o)
}

func generated(c *mon.C, o gen.Opt) *fc {
	f := gen.Font(c.Rand, o)
	s, err := sfnt.Read(f.Bytes)
	if err == nil {
		err = sfnt.ChecksumsOK(f.Bytes)
	}
	if err != nil {
		panic("harness: generated font is not well-formed: " + err.Error())
	}
	for k := range f.Features {
		c.Count("font with "+k, 1)
	}
	c.Count("generated fonts", 1)
	c.Blob("font", f.Bytes)
	return &fc{"generated", f.Bytes, s, f}
}

func (x *fc) features() string {
	if x.f == nil {
		return x.name
	}
	var k []string
	for s := range x.f.Features {
		k = append(k, s)
	}
	sort.Strings(k)
	return fmt.Sprintf("%d glyphs, %d bytes: %s", x.sem.NumGlyphs, len(x.b), strings.Join(k, ", "))
}

func parse(b []byte) (*unitype.Font, error) { return unitype.Parse(bytes.NewReader(b)) }

// mustParse parses a well-formed font; failing to is a violation of the running property too, because nothing it
// promises about the font can then be had.
func mustParse(c *mon.C, b []byte, what string) *unitype.Font {
	f, err := parse(b)
	if err != nil {
		c.Fail("parse fails", "%s: Parse rejects a well-formed font: %v", what, err)
		return nil
	}
	return f
}

func write(f *unitype.Font) ([]byte, error) {
	var buf bytes.Buffer
	err := f.Write(&buf)
	return buf.Bytes(), err
}

func mustWrite(c *mon.C, f *unitype.Font, what string) []byte {
	b, err := write(f)
	if err != nil {
		c.Fail("write fails", "%s: Write fails: %v", what, err)
		return nil
	}
	return b
}

// written parses, writes and reads back with the reference reader.
func readBack(c *mon.C, b []byte, what string) *sfnt.Sem {
	s, err := sfnt.Read(b)
	if err != nil {
		c.Blob("output", b)
		c.Fail("output unreadable", "%s: the written font cannot be read: %v", what, err)
		return nil
	}
	return s
}

func rng(g []unitype.GlyphIndex) []uint16 {
	out := make([]uint16, len(g))
	for i, v := range g {
		out[i] = uint16(v)
	}
	return out
}

// derivation is one operation that makes a font from a font.
type derivation struct {
	Kind   string
	Gids   []unitype.GlyphIndex `json:",omitempty"`
	N      int                  `json:",omitempty"`
	Runes  []rune               `json:",omitempty"`
	Tables []string             `json:",omitempty"`
}

func (d derivation) String() string {
	switch d.Kind {
	case "first":
		return fmt.Sprintf("SubsetFirst(%d)", d.N)
	case "keep":
		return fmt.Sprintf("SubsetKeepIndices(%v)", clipG(d.Gids))
	case "runes":
		return fmt.Sprintf("SubsetKeepRunes(%q)", string(d.Runes))
	case "prune":
		return fmt.Sprintf("PruneTables(%q)", d.Tables)
	}
	return d.Kind
}

func clipG(g []unitype.GlyphIndex) string {
	if len(g) > 30 {
		return fmt.Sprintf("%v... %d glyphs", g[:30], len(g))
	}
	return fmt.Sprint(g)
}

// apply runs d. In-place operations change f itself.
func (d derivation) apply(f *unitype.Font) (*unitype.Font, error) {
	switch d.Kind {
	case "first":
		return f.SubsetFirst(d.N)
	case "keep":
		return f.SubsetKeepIndices(append([]unitype.GlyphIndex(nil), d.Gids...))
	case "runes":
		return f.SubsetKeepRunes(append([]rune(nil), d.Runes...))
	case "prune":
		return f, f.PruneTables(d.Tables...)
	case "optimize":
		return f, f.Optimize()
	}
	return f, nil
}

// model is what d does to the content.
func (d derivation) model(s *sfnt.Sem) (*sfnt.Sem, error) {
	switch d.Kind {
	case "first":
		return s.First(d.N), nil
	case "keep":
		return s.Keep(rng(d.Gids))
	case "runes":
		return s.Keep(lookup(s, d.Runes))
	case "prune":
		return s.Prune(d.Tables...), nil
	}
	return s.Clone(), nil
}

func randGids(c *mon.C, s *sfnt.Sem) []unitype.GlyphIndex {
	n := s.NumGlyphs
	var out []unitype.GlyphIndex
	k := 1 + c.Intn(6)
	switch c.Intn(8) {
	case 0:
		k = 1 + c.Intn(n)
		if k > 300 {
			k = 300
		}
	case 1:
		out = append(out, unitype.GlyphIndex(n-1))
	case 2:
		out = append(out, 0)
	case 3: // prefer composites
		for g := n - 1; g >= 0 && len(out) < k; g-- {
			if g < len(s.Glyphs) && len(s.Glyphs[g]) > 1 && s.Glyphs[g][0]&0x80 != 0 && c.Intn(2) == 0 {
				out = append(out, unitype.GlyphIndex(g))
			}
		}
	case 4:
		if c.Intn(3) == 0 {
			return nil
		}
	}
	lim := n
	if c.Intn(2) == 0 {
		lim = 1 + c.Intn(n)
	}
	for i := 0; i < k; i++ {
		out = append(out, unitype.GlyphIndex(c.Intn(lim)))
	}
	if c.Intn(6) == 0 { // glyphs that differ in few bits
		g := int(out[c.Intn(len(out))])
		for b := 1; b < 65536; b <<= 1 {
			if g^b < n && c.Intn(3) > 0 {
				out = append(out, unitype.GlyphIndex(g^b))
			}
		}
	}
	if c.Intn(5) == 0 && len(out) > 0 {
		out = append(out, out[c.Intn(len(out))])
	}
	return out
}

func randN(c *mon.C, n int) int {
	switch c.Intn(8) {
	case 0:
		return 1
	case 1:
		if n > 1 {
			return n - 1
		}
		return 1
	case 2:
		return n
	case 3:
		return n + 1 + c.Intn(5)
	}
	return 1 + c.Intn(n)
}

func randRunes(c *mon.C, s *sfnt.Sem) []rune {
	var all []rune
	at := map[int]rune{}
	for _, m := range s.Cmap {
		if dm, ok := decoded(m); ok {
			var k []rune
			for r, gs := range dm {
				k = append(k, r)
				if q, has := at[int(gs[0])]; !has || r < q {
					at[int(gs[0])] = r
				}
			}
			sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
			all = append(all, k...)
		}
	}
	var out []rune
	for i := 0; i < 1+c.Intn(12); i++ {
		switch {
		case len(all) > 0 && c.Intn(4) > 0:
			out = append(out, all[c.Intn(len(all))])
		case c.Intn(2) == 0:
			out = append(out, rune(c.Intn(0x180)))
		default:
			out = append(out, rune(c.Intn(0x11000)))
		}
	}
	switch c.Intn(8) {
	case 0, 1:
		out = append(out, out[0])
	case 2: // runes whose glyphs differ in few bits
		var gs []int
		for g := range at {
			gs = append(gs, g)
		}
		sort.Ints(gs)
		if len(gs) == 0 {
			break
		}
		g := gs[c.Intn(len(gs))]
		out = append(out, at[g])
		for b := 1; b < 65536; b <<= 1 {
			if r, has := at[g^b]; has {
				out = append(out, r)
			}
		}
	case 3: // many
		for _, r := range all {
			if len(out) < 3000 && c.Intn(4) > 0 {
				out = append(out, r)
			}
		}
		if c.Intn(2) == 0 {
			c.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		}
	}
	for i, r := range out {
		if r >= 0xD800 && r < 0xE000 || r == unicode.ReplacementChar {
			out[i] = 'A'
		}
	}
	return out
}

// randDeriv makes a random derivation for a font with content s.
func randDeriv(c *mon.C, s *sfnt.Sem) derivation {
	switch c.Intn(10) {
	case 0, 1, 2:
		return derivation{Kind: "first", N: randN(c, s.NumGlyphs)}
	case 3, 4, 5:
		return derivation{Kind: "keep", Gids: randGids(c, s)}
	case 6, 7:
		return derivation{Kind: "runes", Runes: randRunes(c, s)}
	case 8:
		return derivation{Kind: "prune", Tables: randTables(c)}
	}
	return derivation{Kind: "optimize"}
}

func randTables(c *mon.C) []string {
	all := []string{"cmap", "post", "name", "GPOS", "nosuch", "cmap", "post", "name", ""}
	if c.Intn(4) == 0 { // names that are nearly those of tables
		all = append(all, " cmap", "cmap ", "CMAP", "Post", "post\x00", "NAME", "name,post", "cma", "cmapp", "names", "head", "glyf", "loca", "maxp", "hhea", "hmtx", "OS/2", "os2", "cvt ", "fpgm", "prep", "*", "all")
	}
	var out []string
	for i := 0; i < 1+c.Intn(3); i++ {
		out = append(out, all[c.Intn(len(all))])
	}
	return out
}

// chain applies up to k random derivations to f, following the content model.
func chain(c *mon.C, f *unitype.Font, s *sfnt.Sem, k int) (*unitype.Font, *sfnt.Sem, []derivation, bool) {
	var ds []derivation
	for i := 0; i < k; i++ {
		d := randDeriv(c, s)
		if _, err := d.model(s); err != nil {
			continue
		}
		ds = append(ds, d)
		switch c.Intn(6) { // what has been asked before makes no difference
		case 0:
			observe(f, s.NumGlyphs, randRunes(c, s))
			c.Count("fonts queried before a derivation", 1)
		case 1:
			infos(f)
			write(f)
			c.Count("fonts written before a derivation", 1)
		}
		nf, err := d.apply(f)
		if err != nil {
			c.Fail("derivation fails", "%v: %v", ds, err)
			return nil, nil, ds, false
		}
		s, _ = d.model(s)
		f = nf
		c.Count("derivation "+d.Kind, 1)
	}
	return f, s, ds, true
}

// --- reference reading of character maps ---

var macUpper = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»…\u00a0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\uf8ffÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ")

func macRune(b byte) rune {
	if b < 0x80 {
		return rune(b)
	}
	return macUpper[b-0x80]
}

// runeOf decodes a code of a platform/encoding; false where this oracle has no opinion.
func runeOf(plat, enc int, c uint32) (rune, bool) {
	switch {
	case plat == 0 && (enc <= 3), plat == 3 && enc <= 1:
		if c >= 0xD800 && c < 0xE000 || c > 0xFFFF || c == unicode.ReplacementChar {
			return 0, false
		}
		return rune(c), true
	case plat == 0 && (enc == 4 || enc == 6), plat == 3 && enc == 10:
		if c >= 0xD800 && c < 0xE000 || c > 0x10FFFF || c == unicode.ReplacementChar {
			return 0, false
		}
		return rune(c), true
	case plat == 1 && enc == 0:
		if c > 0xFF {
			return 0, false
		}
		return macRune(byte(c)), true
	case plat == 3 && enc >= 2 && enc <= 4:
		return gen.CJKRune(enc, c)
	}
	return 0, false
}

func modelled(plat, enc int) bool {
	return plat == 0 && enc <= 6 && enc != 5 || plat == 1 && enc == 0 || plat == 3 && (enc <= 4 || enc == 10)
}

// decoded is the map from characters to the glyph of the first code for them that maps to one.
func decoded(m sfnt.Sub) (map[rune][]uint16, bool) {
	if !m.Supported || !modelled(m.Plat, m.Enc) {
		return nil, false
	}
	out := map[rune][]uint16{}
	first := map[rune]uint32{}
	for c, g := range m.Map {
		r, ok := runeOf(m.Plat, m.Enc, c)
		if !ok || g == 0 {
			continue
		}
		if o, has := first[r]; !has || c < o {
			first[r], out[r] = c, []uint16{g}
		}
	}
	return out, true
}

// find is the first supported character map for a platform and encoding.
func find(s *sfnt.Sem, plat, enc int) (sfnt.Sub, bool) {
	for _, m := range s.Cmap {
		if m.Plat == plat && m.Enc == enc && m.Supported {
			return m, true
		}
	}
	return sfnt.Sub{}, false
}

var searchOrder = [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}}

// lookup is the glyph of each rune by the documented search order; 0 if none has it.
func lookup(s *sfnt.Sem, runes []rune) []uint16 {
	var maps []map[rune][]uint16
	for _, pe := range searchOrder {
		if m, ok := find(s, pe[0], pe[1]); ok {
			d, _ := decoded(m)
			maps = append(maps, d)
		}
	}
	out := make([]uint16, len(runes))
	for i, r := range runes {
		for _, m := range maps {
			if g := m[r]; len(g) > 0 {
				out[i] = g[0]
				break
			}
		}
	}
	return out
}

// --- observations ---

var pairs = [][2]int{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}, {0, 6}, {1, 0}, {1, 1}, {2, 1}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {3, 4}, {3, 5}, {3, 10}}

func cmapText(m map[rune]unitype.GlyphIndex) string {
	var k []int
	for r, g := range m {
		if g != 0 && r != unicode.ReplacementChar {
			k = append(k, int(r))
		}
	}
	sort.Ints(k)
	var b strings.Builder
	for _, r := range k {
		fmt.Fprintf(&b, "%x=%d ", r, m[rune(r)])
	}
	return b.String()
}

// observe lists what the queries of f answer, one line per query.
func observe(f *unitype.Font, n int, runes []rune) []string {
	var out []string
	for _, pe := range pairs {
		out = append(out, fmt.Sprintf("GetCmap(%d,%d) = %s", pe[0], pe[1], cmapText(f.GetCmap(pe[0], pe[1]))))
	}
	out = append(out, fmt.Sprintf("LookupRunes = %v", f.LookupRunes(runes)))
	var b strings.Builder
	for g := 0; g <= n; g++ {
		o, l, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g))
		fmt.Fprintf(&b, "%d:%d+%d,%v ", g, o, l, err != nil)
	}
	out = append(out, "GetGlyphDataOffset = "+b.String())
	nr := f.GetNameRecords()
	b.Reset()
	for _, l := range langs(nr) {
		var ids []int
		for id := range nr[l] {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			fmt.Fprintf(&b, "%d/%d=%q ", l, id, nr[l][uint16(id)])
		}
	}
	out = append(out, "GetNameRecords = "+b.String())
	b.Reset()
	for id := 0; id < 27; id++ {
		fmt.Fprintf(&b, "%q ", f.GetNameByID(id))
	}
	return append(out, "GetNameByID = "+b.String())
}

func langs(m map[uint16]map[uint16]string) (k []uint16) {
	for l := range m {
		k = append(k, l)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return
}

var infoTables = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"}

func infos(f *unitype.Font) (out []string) {
	for _, t := range infoTables {
		out = append(out, fmt.Sprintf("TableInfo(%s) = %s", t, plain(f.TableInfo(t))))
	}
	return
}

var addressRE = regexp.MustCompile(`\(0x[0-9a-f]+\)`)

// plain is a report less the addresses that reports on structures may have.
func plain(s string) string { return addressRE.ReplaceAllString(s, "(address)") }

func hash(b []byte) string { return fmt.Sprintf("%d bytes, sha256 %x", len(b), sha256.Sum256(b)) }

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			x, y := a[i], b[i]
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			lo := k - 40
			if lo < 0 {
				lo = 0
			}
			cut := func(s string) string {
				hi := k + 80
				if hi > len(s) {
					hi = len(s)
				}
				if lo > hi {
					return ""
				}
				return s[lo:hi]
			}
			q := x
			if j := strings.Index(x, "="); j > 0 {
				q = x[:j]
			}
			return fmt.Sprintf("%s: ...%q... against ...%q...", q, cut(x), cut(y))
		}
	}
	if len(a) != len(b) {
		return "different number of observations"
	}
	return ""
}

func diffBytes(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d and %d bytes, first difference at %d", len(a), len(b), i)
}

func utf16be(b []byte) []rune {
	var u []uint16
	for i := 0; i+1 < len(b); i += 2 {
		u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
	}
	return utf16.Decode(u)
}
