package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "L26", Level: "exploration", Quick: 400, Thorough: 4000, Run: l26,
		Rule: ruleFonts + ", given to every command of the truecli program (info, validate, readwrite, subset gids/runes/simple, with and without debug logging) intact, corrupted, truncated or missing, with valid and invalid arguments and writable and unwritable destinations; non-trivial: distinct command and font. Exit status, output file and report are compared with what the library and the reference reader say"})
	reg(&mon.Prop{ID: "X27", Level: "exploration", Quick: 12000, Thorough: 200000, Run: x27,
		Rule: "every byte and every Unicode code point once, and random texts and byte strings (surrogate pairs, lone surrogates, odd lengths, slices with spare capacity), encoded and decoded as UTF-16BE and PDFDocEncoding; non-trivial: distinct input, compared with a reference codec and with its own round trip"})
	reg(&mon.Prop{ID: "I28", Level: "exploration", Quick: 20000, Thorough: 100000, Run: i28,
		Rule: ruleFonts + ", their table reports compared with the reference reader's counts as parsed, after pruning and after subsetting; non-trivial: distinct font"})
}

// --- truecli ---

type cliRun struct {
	code   int
	out    string
	killed bool
}

func cli(dir string, args ...string) cliRun {
	cmd := exec.Command(os.Getenv("VERIF_CLI"), args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	killed := !t.Stop()
	r := cliRun{out: b.String(), killed: killed}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
		if r.code < 0 {
			r.code = 255
		}
	} else if err != nil {
		r.code = 254
	}
	return r
}

func clipS(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// special lists the blanks, punctuation and control characters that the font maps.
func special(s *sfnt.Sem) (out []rune) {
	seen := map[rune]bool{0: true}
	for _, m := range s.Cmap {
		if dm, ok := decoded(m); ok {
			for r := range dm {
				if !seen[r] && utf8.ValidRune(r) && !unicode.IsLetter(r) && !unicode.IsDigit(r) && (r < 0x100 || unicode.IsSpace(r) || unicode.IsControl(r)) {
					out = append(out, r)
				}
				seen[r] = true
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := unicode.IsSpace(out[i]), unicode.IsSpace(out[j]); a != b {
			return a
		}
		return out[i] < out[j]
	})
	for i, r := range out { // blanks most of the time
		if i > 0 && !unicode.IsSpace(r) {
			return out[:i+(len(out)-i+3)/4]
		}
	}
	return out
}

func l26(c *mon.C, i int) {
	if i%16 == 7 {
		unwritable(c)
		return
	}
	x := pick(c, i, gen.Opt{MaxN: 400, Plain: false})
	dir, err := os.MkdirTemp(c.Scratch(), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.ttf")
	os.WriteFile(in, x.b, 0o644)
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	fresh := func() *unitype.Font { g, _ := parse(x.b); return g }
	outOf := func(g *unitype.Font, err error) []byte {
		if err != nil {
			return nil
		}
		b, err := write(g)
		if err != nil {
			return nil
		}
		return b
	}
	list := func() string {
		es, _ := os.ReadDir(dir)
		var n []string
		for _, e := range es {
			n = append(n, e.Name())
		}
		return strings.Join(n, " ")
	}
	type job struct {
		args []string
		out  string // file it makes
		want []byte
		fail bool
	}
	var jobs []job
	add := func(j job) { jobs = append(jobs, j) }
	add(job{args: []string{"readwrite", in}, out: "readwrite.ttf", want: outOf(fresh(), nil)})
	add(job{args: []string{"validate", in}, fail: sfnt.ChecksumsOK(x.b) != nil})
	gids := randGids(c, x.sem)
	if len(gids) == 0 {
		gids = []unitype.GlyphIndex{0}
	}
	ga := []string{"subset", "gids", in}
	for _, g := range gids {
		ga = append(ga, strconv.Itoa(int(g)))
	}
	add(job{args: ga, out: "subset_gids.ttf", want: outOf(fresh().SubsetKeepIndices(gids))})
	gz := []string{"subset", "gids", in} // the same, with leading zeros
	for _, g := range gids {
		gz = append(gz, strings.Repeat("0", c.Intn(4))+fmt.Sprint(g))
	}
	add(job{args: gz, out: "subset_gids.ttf", want: outOf(fresh().SubsetKeepIndices(gids))})
	var runes []rune
	for _, r := range randRunes(c, x.sem) {
		if r > 0 && r <= 0x10FFFF {
			runes = append(runes, r)
		}
	}
	if len(runes) == 0 {
		runes = []rune{'A'}
	}
	wr := outOf(fresh().SubsetKeepRunes(runes))
	add(job{args: []string{"subset", "runes", "-o", "named.ttf", "--", in, string(runes)}, out: "named.ttf", want: wr})
	if c.Intn(2) == 0 {
		add(job{args: []string{"subset", "runes", "--", in, string(runes)}, out: "subset_runes.ttf", want: wr})
	}
	if sp := special(x.sem); len(sp) > 0 { // text that begins and ends with what a command line tool may take for something else
		text := []rune{sp[c.Intn(len(sp))]}
		if c.Intn(2) == 0 {
			text = append(text, runes...)
		}
		text = append(text, sp[c.Intn(len(sp))])
		add(job{args: []string{"subset", "runes", "-o", "special.ttf", "--", in, string(text)}, out: "special.ttf", want: outOf(fresh().SubsetKeepRunes(text))})
		c.Count("texts of special characters", 1)
	}
	add(job{args: []string{"subset", "simple", in}, out: "subset.ttf", want: outOf(fresh().SubsetFirst(256))})
	// failures
	bad := filepath.Join(dir, "bad.ttf")
	bb, how := gen.Mutate(c.Rand, x.b, nil)
	if c.Intn(2) == 0 {
		bb = x.b[:c.Intn(len(x.b))]
		how = []string{"truncated"}
	}
	os.WriteFile(bad, bb, 0o644)
	nosuch := filepath.Join(dir, "nosuch.ttf")
	if _, err := parse(bb); err != nil {
		for _, a := range [][]string{{"readwrite", bad}, {"validate", bad}, {"subset", "gids", bad, "0"}, {"subset", "runes", bad, "A"}, {"subset", "simple", bad}, {"info", "--trec", bad}} {
			if c.Intn(2) == 0 {
				add(job{args: a, fail: true})
			}
		}
	} else if !dupHead(bb) {
		ve := sfnt.ChecksumsOK(bb)
		if ve != nil || unitype.ValidateBytes(bb) == nil {
			add(job{args: []string{"validate", bad}, fail: ve != nil})
		}
	}
	flip := append([]byte(nil), x.b...)
	flip[12+c.Intn(len(flip)-12)] ^= byte(1 + c.Intn(255))
	if sfnt.ChecksumsOK(flip) != nil && !dupHead(flip) {
		os.WriteFile(filepath.Join(dir, "flip.ttf"), flip, 0o644)
		add(job{args: []string{"validate", filepath.Join(dir, "flip.ttf")}, fail: true})
	}
	others := [][]string{
		{"readwrite", nosuch}, {"validate", nosuch}, {"subset", "gids", nosuch, "0"}, {"subset", "runes", nosuch, "A"}, {"subset", "simple", nosuch}, {"info", "--trec", nosuch},
		{"readwrite"}, {"validate"}, {"subset", "gids", in}, {"subset", "gids", in, "x"}, {"subset", "gids", in, "65536"}, {"subset", "gids", in, "1", "-"}, {"subset", "gids", in, ""},
		{"subset", "runes", in}, {"subset", "simple"}, {"info"}, {"nosuchcommand"}, {"subset", "gids", "--", in, "-1"}, {"subset", "gids", in, "4294967296"}, {"subset", "gids", in, "1.5"}, {"subset", "gids", in, "65536", "0"},
		{"subset", "gids", in, "0x1"}, {"subset", "gids", in, "0", "0b1"}, {"subset", "gids", in, "1_0"}, {"subset", "gids", in, "1", "1e1"}, {"subset", "gids", in, " 1"},
		{"subset", "runes", "-o", filepath.Join(dir, "nodir", "x.ttf"), in, "A"}, {"subset", "runes", "-o", dir, in, "A"},
	}
	for k := 0; k < 5; k++ {
		add(job{args: others[c.Intn(len(others))], fail: true})
	}
	for _, j := range jobs {
		debug := c.Intn(4) == 0 && len(x.b) < 20000
		args := j.args
		if debug {
			args = append([]string{"--loglevel", "debug"}, args...)
			c.Count("runs with debug logging", 1)
		}
		before := list()
		what := fmt.Sprintf("truecli %q on %s", args, x.features())
		if j.out != "" && c.Intn(3) == 0 { // an existing longer file
			os.WriteFile(filepath.Join(dir, j.out), make([]byte, len(j.want)+100), 0o644)
		}
		r := cli(dir, args...)
		if r.killed {
			c.Fail("truecli hangs", "%s", what)
			return
		}
		if (r.code != 0) != j.fail {
			c.Fail("truecli exit status", "%s: exit status %d, want failure: %v (%v)\n%s", what, r.code, j.fail, how, clipS(r.out))
			return
		}
		if j.out != "" {
			b, _ := os.ReadFile(filepath.Join(dir, j.out))
			if !bytes.Equal(b, j.want) || len(b) == 0 {
				c.Fail("truecli output", "%s: %s against the library: %s", what, j.out, diffBytes(j.want, b))
				return
			}
			if is := sfnt.CheckContainer(b); len(is) > 0 {
				c.Fail("truecli output", "%s: %s", what, strings.Join(is, "; "))
				return
			}
			os.Remove(filepath.Join(dir, j.out))
			c.Count("output files compared", 1)
		}
		if after := list(); j.out == "" && after != before {
			c.Fail("truecli leaves files", "%s: directory had [%s], now [%s]", what, before, after)
			return
		}
		if got, _ := os.ReadFile(in); !bytes.Equal(got, x.b) {
			c.Fail("truecli changes its input", "%s: %s", what, diffBytes(x.b, got))
			return
		}
		if j.fail {
			c.Count("failures reported", 1)
		} else {
			c.Count("successful runs", 1)
		}
		c.Eval("%s %q", hash(x.b), args)
	}
	// a destination that cannot be written
	k := c.Intn(4)
	name := []string{"readwrite.ttf", "subset_gids.ttf", "subset_runes.ttf", "subset.ttf"}[k]
	os.Mkdir(filepath.Join(dir, name), 0o755)
	args := [][]string{{"readwrite", in}, ga, {"subset", "runes", in, "A"}, {"subset", "simple", in}}[k]
	if r := cli(dir, args...); r.code == 0 {
		c.Fail("truecli exit status", "truecli %q exits with success though %s is a directory\n%s", args, name, clipS(r.out))
		return
	}
	c.Count("unwritable destinations reported", 1)
	// info
	var flags, want []string
	for _, t := range []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"} {
		if c.Intn(2) == 0 {
			flags = append(flags, "--"+t)
			want = append(want, plain(f.TableInfo(t)))
		}
	}
	c.Rand.Shuffle(len(flags), func(a, b int) { flags[a], flags[b] = flags[b], flags[a] })
	r := cli(dir, append(append([]string{"info"}, flags...), in)...)
	r.out = plain(r.out)
	if r.code != 0 || r.out != strings.Join(want, "") {
		c.Fail("truecli info", "truecli info %v: status %d, %s; %s", flags, r.code, firstDiff(strings.Split(strings.Join(want, ""), "\n"), strings.Split(r.out, "\n")), x.features())
		return
	}
	c.Eval("%s info %v", hash(x.b), flags)
	// the listing of mapped glyphs
	r = cli(dir, "info", "--cmappings", in)
	if r.code != 0 {
		c.Fail("truecli info", "truecli info --cmappings: status %d; %s", r.code, x.features())
		return
	}
	if bad := cmappings(f, r.out); bad != "" {
		c.Fail("truecli info", "truecli info --cmappings: %s; %s", bad, x.features())
		return
	}
	c.Count("character listings compared", 1)
	c.Sample(map[string]interface{}{"font": x.features(), "commands": len(jobs) + 3})
}

// unwritable gives the program a font that can be parsed but perhaps not written: whatever the library says of it, the
// program has to say.
func unwritable(c *mon.C) {
	b := gen.Overfull(c.Rand).Bytes
	c.Blob("font", b)
	dir, err := os.MkdirTemp(c.Scratch(), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.ttf")
	os.WriteFile(in, b, 0o644)
	load := func() *unitype.Font { return mustParse(c, b, "overfull character map") }
	f := load()
	if f == nil {
		return
	}
	sub := func(g *unitype.Font, err error) *unitype.Font {
		if err != nil {
			return nil
		}
		return g
	}
	jobs := []struct {
		args []string
		out  string
		f    *unitype.Font
	}{
		{[]string{"readwrite", in}, "readwrite.ttf", f},
		{[]string{"subset", "gids", in, "0", "299"}, "subset_gids.ttf", sub(load().SubsetKeepIndices([]unitype.GlyphIndex{0, 299}))},
		{[]string{"subset", "runes", in, "AB"}, "subset_runes.ttf", sub(load().SubsetKeepRunes([]rune("AB")))},
		{[]string{"subset", "simple", in}, "subset.ttf", sub(load().SubsetFirst(256))},
	}
	for _, j := range jobs {
		var want []byte
		if j.f != nil {
			if w, err := write(j.f); err == nil {
				want = w
			}
		}
		r := cli(dir, j.args...)
		if r.killed || (r.code == 0) != (want != nil) {
			c.Fail("truecli exit status", "truecli %q on a font with an overfull character map: exit status %d, but the library writes it: %v\n%s", j.args, r.code, want != nil, clipS(r.out))
			return
		}
		if want != nil {
			if got, _ := os.ReadFile(filepath.Join(dir, j.out)); !bytes.Equal(got, want) {
				c.Fail("truecli output", "truecli %q: %s against the library: %s", j.args, j.out, diffBytes(want, got))
				return
			}
			c.Count("output files compared", 1)
		} else {
			c.Count("fonts that cannot be written reported", 1)
		}
		c.Eval("%s %q", hash(b), j.args)
	}
}

var mapLine = regexp.MustCompile(`(?s)(\d)/(\d+,\d+): (\d+) - (.)\n`)

// cmappings checks that every mapping to a glyph of the three maps listed is listed, once, and by glyph.
func cmappings(f *unitype.Font, out string) string {
	listed := map[string]map[rune]int{}
	last := map[string]int{}
	for _, m := range mapLine.FindAllStringSubmatch(out, -1) {
		p, e, _ := strings.Cut(m[2], ",")
		pi, _ := strconv.Atoi(p)
		ei, _ := strconv.Atoi(e)
		g, _ := strconv.Atoi(m[3])
		r, _ := utf8.DecodeRuneInString(m[4])
		if cm := f.GetCmap(pi, ei); r != utf8.RuneError && int(cm[r]) != g {
			return fmt.Sprintf("lists %q -> %d for %s, but it maps to %d", r, g, m[2], cm[r])
		}
		if listed[m[2]] == nil {
			listed[m[2]] = map[rune]int{}
		}
		if listed[m[2]][r]++; listed[m[2]][r] > 1 {
			return fmt.Sprintf("lists %q -> %d for %s twice", r, g, m[2])
		}
		if g < last[m[2]] {
			return fmt.Sprintf("lists glyph %d after %d for %s", g, last[m[2]], m[2])
		}
		last[m[2]] = g
	}
	for _, pe := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
		for r, g := range f.GetCmap(pe[0], pe[1]) {
			if g != 0 && listed[fmt.Sprintf("%d,%d", pe[0], pe[1])][r] == 0 {
				return fmt.Sprintf("does not list glyph %d of (%d,%d), which %U maps to", g, pe[0], pe[1], r)
			}
		}
	}
	return ""
}

// --- text codecs ---

var pdfDoc = func() map[byte]rune {
	m := map[byte]rune{}
	for b := 1; b < 0x18; b++ {
		m[byte(b)] = rune(b)
	}
	for i, r := range []rune("˘ˇˆ˙˝˛˚˜") {
		m[byte(0x18+i)] = r
	}
	for b := 0x20; b < 0x7F; b++ {
		m[byte(b)] = rune(b)
	}
	for i, r := range []rune("•†‡…—–ƒ⁄‹›−‰„“”‘’‚™ﬁﬂŁŒŠŸŽıłœšž") {
		m[byte(0x80+i)] = r
	}
	m[0xA0] = '€'
	for b := 0xA1; b < 0x100; b++ {
		if b != 0xAD {
			m[byte(b)] = rune(b)
		}
	}
	return m
}()

// x27bytes judges decoding of b.
func x27bytes(c *mon.C, b []byte) bool {
	spare := c.Intn(4)
	buf := make([]byte, len(b)+spare)
	copy(buf, b)
	for k := len(b); k < len(buf); k++ {
		buf[k] = 0xA5
	}
	keep := append([]byte(nil), buf...)
	in := buf[:len(b)]
	u := strutils.UTF16ToRunes(in)
	us := strutils.UTF16ToString(in)
	p := strutils.PDFDocEncodingToRunes(in)
	ps := strutils.PDFDocEncodingToString(in)
	if !bytes.Equal(buf, keep) {
		c.Fail("decoding changes its input", "% x (capacity %d) became % x", keep, len(buf), buf)
		return false
	}
	if c.Intn(8) == 0 && !sealed(c, b, func() string { return fmt.Sprintf("decoding % x", b) }, func(b []byte) {
		strutils.UTF16ToRunes(b)
		strutils.UTF16ToString(b)
		strutils.PDFDocEncodingToRunes(b)
		strutils.PDFDocEncodingToString(b)
	}) {
		return false
	}
	if len(b)%2 == 0 || len(b) > 1 {
		want := utf16be(b)
		if len(b)%2 != 0 {
			// what a half unit stands for is open; what precedes it is not
			if len(u) < len(want) {
				c.Fail("UTF-16 decoding", "UTF16ToRunes(% x) = %x, want at least %x", b, u, want)
				return false
			}
			k := len(want)
			if k > 0 && want[k-1] == 0xFFFD {
				k--
			}
			u, want = u[:k], want[:k]
		}
		if string(u) != string(want) {
			c.Fail("UTF-16 decoding", "UTF16ToRunes(% x) = %x, want %x", b, u, want)
			return false
		}
		if len(b)%2 == 0 && us != string(want) {
			c.Fail("UTF-16 decoding", "UTF16ToString(% x) = %q, want %q", b, us, string(want))
			return false
		}
	}
	var want []rune
	for _, v := range b {
		if r, ok := pdfDoc[v]; ok {
			want = append(want, r)
		} else if v == 0 { // undefined in PDFDocEncoding; skipped or control character
			return true
		}
	}
	if string(p) != string(want) || ps != string(want) {
		c.Fail("PDFDocEncoding decoding", "PDFDocEncodingToRunes(% x) = %q, want %q", b, string(p), string(want))
		return false
	}
	// every byte that means something comes back
	var def []byte
	for _, v := range b {
		if _, ok := pdfDoc[v]; ok {
			def = append(def, v)
		}
	}
	if e := strutils.StringToPDFDocEncoding(ps); !bytes.Equal(e, def) {
		c.Fail("PDFDocEncoding round trip", "% x decodes to %q, which encodes to % x", def, ps, e)
		return false
	}
	c.EvalBytes([]byte("b"), b)
	return true
}

func x27text(c *mon.C, s string) bool {
	e := strutils.StringToUTF16(s)
	var want []byte
	for _, u := range utf16.Encode([]rune(s)) {
		want = append(want, byte(u>>8), byte(u))
	}
	if e != string(want) {
		c.Fail("UTF-16 encoding", "StringToUTF16(%q) = % x, want % x", s, e, want)
		return false
	}
	if d := strutils.UTF16ToString([]byte(e)); d != string([]rune(s)) {
		c.Fail("UTF-16 round trip", "%q became %q", s, d)
		return false
	}
	var back []rune
	inv := map[rune]bool{}
	for _, r := range pdfDoc {
		inv[r] = true
	}
	for _, r := range s {
		if inv[r] {
			back = append(back, r)
		}
	}
	if strings.ContainsRune(s, 0) {
		return true
	}
	if d := strutils.PDFDocEncodingToString(strutils.StringToPDFDocEncoding(s)); d != string(back) {
		c.Fail("PDFDocEncoding round trip", "%q became %q, want %q", s, d, string(back))
		return false
	}
	c.EvalBytes([]byte("t"), []byte(s))
	return true
}

func x27(c *mon.C, i int) {
	if i < 256 {
		for v := 0; v < 256; v++ {
			if !x27bytes(c, []byte{byte(i), byte(v)}) {
				return
			}
		}
		if !x27bytes(c, []byte{byte(i)}) {
			return
		}
		c.Count("byte pairs decoded", 256)
		return
	}
	if i < 256+272 { // every code point
		lo := rune(i-256) * 4096
		n := 0
		for r := lo; r < lo+4096 && r <= 0x10FFFF; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			if !x27text(c, string(r)) {
				return
			}
			n++
		}
		c.Count("code points encoded", n)
		return
	}
	for k := 0; k < 20; k++ {
		b := make([]byte, c.Intn(40))
		c.Read(b)
		for p := 0; p+1 < len(b); p += 2 {
			switch c.Intn(4) {
			case 0:
				b[p] = 0xD8 | b[p]&7
			case 1:
				b[p] = 0
			}
		}
		if !x27bytes(c, b) {
			return
		}
		var rs []rune
		for n := c.Intn(20); n > 0; n-- {
			switch c.Intn(4) {
			case 0:
				rs = append(rs, rune(c.Intn(0x110000)))
			case 1:
				rs = append(rs, pdfDoc[byte(1+c.Intn(0x7E))])
			case 2:
				rs = append(rs, rune(0x10000+c.Intn(0x100000)))
			default:
				rs = append(rs, rune(c.Intn(0x2300)))
			}
		}
		if !x27text(c, string(rs)) {
			return
		}
		c.Sample(map[string]string{"bytes": fmt.Sprintf("% x", b), "text": fmt.Sprintf("%+q", string(rs))})
	}
}

// --- table reports ---

var numRE = regexp.MustCompile(`\d+`)

func nums(s string) (out []int) {
	for _, m := range numRE.FindAllString(s, -1) {
		v, _ := strconv.Atoi(m)
		out = append(out, v)
	}
	return
}

// reportAnswer judges the table reports of a font with content s; dir is its directory, nil for derived fonts.
func reportAnswer(f *unitype.Font, s *sfnt.Sem, b []byte) string {
	has := map[string]bool{}
	for _, t := range s.Tags {
		has[t] = true
	}
	for _, t := range [][2]string{{"os2", "OS/2"}, {"cmap", "cmap"}, {"post", "post"}, {"hmtx", "hmtx"}, {"name", "name"}, {"head", "head"}, {"hhea", "hhea"}, {"loca", "loca"}, {"glyf", "glyf"}} {
		if miss := strings.Contains(f.TableInfo(t[0]), "missing"); miss == has[t[1]] {
			return fmt.Sprintf("TableInfo(%s) = %q, but the font has the table: %v", t[0], clipS(f.TableInfo(t[0])), has[t[1]])
		}
	}
	if n := nums(f.TableInfo("hhea")); b != nil && (len(n) == 0 || n[len(n)-1] != s.NHM) {
		return fmt.Sprintf("TableInfo(hhea) = %q, want %d", f.TableInfo("hhea"), s.NHM)
	}
	if s.HasHmtx {
		n := nums(f.TableInfo("hmtx"))
		if len(n) != 2 || n[0]+n[1] < len(s.Adv) || b != nil && n[0] != s.NHM {
			return fmt.Sprintf("TableInfo(hmtx) = %q, but the font has metrics for %d glyphs, %d of them full", f.TableInfo("hmtx"), len(s.Adv), s.NHM)
		}
	}
	n := nums(f.TableInfo("loca"))
	if len(n) != 2 || n[0]+n[1] < s.NumGlyphs+1 || (n[0] > 0) == (n[1] > 0) || (n[0] > 0) != (s.LocFormat == 0) {
		return fmt.Sprintf("TableInfo(loca) = %q, but the font has %d glyphs, location format %d", f.TableInfo("loca"), s.NumGlyphs, s.LocFormat)
	}
	size := 0
	for _, g := range s.Glyphs {
		size += len(g)
	}
	if w := fmt.Sprintf("%d descriptions (%.2f kB)", s.NumGlyphs, float64(size)/1024); !strings.Contains(f.TableInfo("glyf"), w) {
		return fmt.Sprintf("TableInfo(glyf) = %q, want %q", f.TableInfo("glyf"), w)
	}
	if bad := postReport(f.TableInfo("post"), s); bad != "" {
		return bad
	}
	if bad := cmapReport(f.TableInfo("cmap"), s); bad != "" {
		return bad
	}
	if b == nil {
		return ""
	}
	d, err := sfnt.ReadDir(b)
	if err != nil {
		panic(err)
	}
	want := []string{fmt.Sprintf("trec: present with %d table records", len(d.Recs))}
	for _, r := range d.Recs {
		l := fmt.Sprintf("%d B", r.Len)
		if r.Len > 1<<20 {
			l = fmt.Sprintf("%.2f MB", float64(r.Len)/(1<<20))
		} else if r.Len > 1024 {
			l = fmt.Sprintf("%.2f kB", float64(r.Len)/1024)
		}
		want = append(want, fmt.Sprintf("%s: %s", r.Tag, l))
	}
	var got []string
	for _, l := range strings.Split(f.TableInfo("trec"), "\n") {
		if l = strings.TrimSpace(l); l != "" && l != "--" {
			got = append(got, l)
		}
	}
	sort.Strings(want[1:])
	if len(got) > 0 {
		sort.Strings(got[1:])
	}
	for k := range want {
		if k >= len(got) || strings.TrimSpace(want[k]) != got[k] {
			return fmt.Sprintf("TableInfo(trec) has lines %q, want %q", got, want)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("TableInfo(trec) has %d lines, want %d", len(got), len(want))
	}
	if f.String() != f.TableInfo("trec") {
		return "String differs from TableInfo(trec)"
	}
	return ""
}

// postReport judges the report on glyph names. Those of a subset by glyph are open (PostN < 0).
func postReport(r string, s *sfnt.Sem) string {
	if s.Post == nil || s.PostN < 0 {
		return ""
	}
	lines := strings.Split(r, "\n")
	n := nums(lines[0])
	if len(n) == 0 || n[0] != s.PostN {
		return fmt.Sprintf("TableInfo(post) = %q, but the post table names %d glyphs", clipS(r), s.PostN)
	}
	listed := 0
	for _, l := range lines {
		if m := postCount.FindStringSubmatch(l); m != nil {
			want := s.PostN
			if m[1] == "glyphNameIndex" && s.PostVer != 0x00020000 {
				want = 0
			}
			if m[2] != fmt.Sprint(want) {
				return fmt.Sprintf("TableInfo(post) lists %q, want %d (post %08x)", l, want, s.PostVer)
			}
		}
		m := postLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		listed++
		i, _ := strconv.Atoi(m[1])
		if i < 1 || i > s.PostN {
			return fmt.Sprintf("TableInfo(post) lists %q, but the post table names %d glyphs", l, s.PostN)
		}
		if s.PostNames == nil {
			continue
		}
		if want := s.PostNames[i-1]; want != m[2] {
			return fmt.Sprintf("TableInfo(post) lists %q, want %q", l, want)
		}
	}
	if s.PostN > 0 && listed == 0 {
		return fmt.Sprintf("TableInfo(post) = %q lists no names of %d", clipS(r), s.PostN)
	}
	return ""
}

var (
	postLine  = regexp.MustCompile(`^- post: (\d+): (.*)$`)
	postCount = regexp.MustCompile(`^- post (glyphNameIndex|glyphNames): (\d+)$`)
	cmapRow   = regexp.MustCompile(`^\s*(\d+) - Charcode (\d+) `)
)

// cmapReport judges the report on character maps.
func cmapReport(r string, s *sfnt.Sem) string {
	if !s.HasCmap {
		return ""
	}
	var subs []sfnt.Sub
	for _, m := range s.Cmap {
		if m.Supported {
			subs = append(subs, m)
		}
	}
	lines := strings.Split(r, "\n")
	k, left := -1, 0
	var seen map[int]int
	done := func() string {
		if left != 0 {
			return fmt.Sprintf("TableInfo(cmap): character map %d announces %d rows more than it lists", k, left)
		}
		if k < 0 || subs[k].Format != 4 && subs[k].Format != 12 {
			return ""
		}
		for code, g := range subs[k].Map {
			if _, ok := seen[int(g)]; code != 0 && !ok {
				return fmt.Sprintf("TableInfo(cmap): character map %d lists no code for glyph %d, code %#x maps to it", k, g, code)
			}
		}
		return ""
	}
	total := -1
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "cmap: encoding records:"):
			if n := nums(l); len(n) > 0 {
				total = n[len(n)-1]
			}
		case strings.HasPrefix(l, "cmap subtable:"):
			if bad := done(); bad != "" {
				return bad
			}
			k++
			if k >= len(subs) {
				return fmt.Sprintf("TableInfo(cmap) lists more than %d character maps", len(subs))
			}
			n := nums(l)
			left, seen = n[len(n)-1], map[int]int{}
		default:
			m := cmapRow.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			left--
			i, _ := strconv.Atoi(m[1])
			code, _ := strconv.Atoi(m[2])
			if k < 0 {
				return "TableInfo(cmap) has a row before the first character map"
			}
			if f := subs[k].Format; code == 0 || f != 4 && f != 12 {
				continue
			}
			seen[i] = code
			if int(subs[k].Map[uint32(code)]) != i {
				return fmt.Sprintf("TableInfo(cmap), character map %d: %q, but code %#x is glyph %d", k, l, code, subs[k].Map[uint32(code)])
			}
		}
	}
	if bad := done(); bad != "" {
		return bad
	}
	if total != len(subs) || k+1 != len(subs) {
		return fmt.Sprintf("TableInfo(cmap) states %d character maps and lists %d, the font has %d", total, k+1, len(subs))
	}
	return ""
}

func i28(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough})
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	if bad := reportAnswer(f, x.sem, x.b); bad != "" {
		c.Fail("report", "as parsed: %s; %s", bad, x.features())
		return
	}
	if b := mustWrite(c, f, x.features()); b == nil {
		return
	} else if s := readBack(c, b, x.features()); s == nil {
		return
	} else if g := mustParse(c, b, x.features()); g == nil {
		return
	} else if bad := reportAnswer(g, s, b); bad != "" {
		c.Fail("report", "after write and re-parse: %s; %s", bad, x.features())
		return
	}
	for k := 0; k < 2; k++ {
		g, s, ds, ok := chain(c, f, x.sem, 1+c.Intn(2))
		if !ok {
			return
		}
		if bad := reportAnswer(g, s, nil); bad != "" {
			c.Fail("report", "%v: %s; %s", ds, bad, x.features())
			return
		}
		x = &fc{x.name, x.b, s, x.f}
		f = g
		c.Count("reports of derived fonts compared", 1)
	}
	c.EvalBytes(x.b)
	c.Sample(x.features())
}
