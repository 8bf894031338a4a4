package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "R21", Level: "exploration", Quick: 120000, Thorough: 700000, Run: r21,
		Rule: "fonts damaged by structure-aware mutation (directory entries, counts, offsets, lengths, versions, flags, cyclic and dangling glyph references, tables moved, swapped, truncated, spliced with another font), arbitrary bytes and truncations, with and without checksums made right; parsed, validated, and if parsed every query, report, subset, prune, optimize, write and re-parse executed; non-trivial: distinct input. A panic, fatal error, exhaustion of memory, or 45 s of CPU without a result is a violation"})
	reg(&mon.Prop{ID: "R22", Level: "exploration", Quick: 36000, Thorough: 120000, Run: r22,
		Rule:   "small fonts in which counts, lengths and offsets that govern allocation are inflated to extreme values, parsed and validated while the bytes the run time allocates are counted; non-trivial: distinct input whose allocation was measured against 8 MB plus 400 times its length",
		Assume: []string{"the bound is generous: a 16-bit count legitimately costs some MB"}, Shards: 8})
	reg(&mon.Prop{ID: "R23", Level: "fault_enumeration", Quick: 320, Thorough: 5000, Run: r23,
		Rule: "for each font, every read and seek operation that parsing performs is made to fail in turn (all of them for small fonts, a sample otherwise), once transiently and once for good, every truncation of small fonts is parsed, and readers that deliver data in chunks, with data and end of file together, or with empty reads are substituted; non-trivial: distinct font and fault. Parse must return an error or a font that answers and writes exactly as without the fault; unorthodox but correct readers must make no difference"})
	reg(&mon.Prop{ID: "R24", Level: "fault_enumeration", Quick: 1600, Thorough: 8000, Run: r24,
		Rule: "for each font (parsed, subset, pruned) the destination fails after k bytes, for every k of small outputs and boundary and random k of others, with an error or a short count, once or for good; files that cannot be created, device full, directories and existing longer files are tried with WriteFile; non-trivial: distinct font and fault. The error must be reported, what was delivered must be a prefix of the correct output, and the font must write correctly afterwards"})
}

// exercise runs everything the library offers on a font that may be damaged.
func exercise(c *mon.C, f *unitype.Font, deep int) {
	runes := []rune{'A', 'z', 0, -1, 0xE9, 0x4E00, 0xFFFD, 0xFFFF, 0x10FFFF, 0x110000, rune(c.Intn(65536)), rune(c.Intn(65536))}
	step := func(name string, g func()) {
		if p := mon.Guard(g); p != "" && !c.Failed() {
			c.Fail(name+" panics: "+firstLine(p), "%s on a damaged font: %s", name, p)
		}
	}
	for _, pe := range pairs {
		step("GetCmap", func() {
			m := f.GetCmap(pe[0], pe[1])
			if len(m) > 0 && len(runes) < 30 {
				for r := range m {
					runes = append(runes, r)
					break
				}
			}
		})
	}
	step("LookupRunes", func() { f.LookupRunes(runes) })
	n := 0
	step("GetGlyphDataOffset", func() {
		for _, g := range []int{0, 1, 2, c.Intn(65536), 65535} {
			if _, _, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g)); err == nil {
				n = g
			}
		}
	})
	step("GetNameRecords", func() { f.GetNameRecords() })
	step("GetNameByID", func() {
		for _, id := range []int{-1, 0, 1, 4, 6, 65535, 1 << 20} {
			f.GetNameByID(id)
		}
	})
	if deep == 2 {
		for _, t := range append(infoTables, "nosuch", "") {
			step("TableInfo("+t+")", func() { f.TableInfo(t) })
		}
	}
	if c.Failed() {
		return
	}
	var b []byte
	var err error
	step("Write", func() { b, err = write(f) })
	if err == nil && !c.Failed() {
		c.Count("damaged fonts written", 1)
		step("ValidateBytes of output", func() { unitype.ValidateBytes(b) })
		step("Parse of output", func() { parse(b) })
	} else {
		c.Count("damaged fonts refused by Write", 1)
	}
	if deep == 0 || c.Failed() {
		return
	}
	for k := 0; k < 3 && !c.Failed(); k++ {
		var d derivation
		switch k {
		case 0:
			d = derivation{Kind: "first", N: []int{0, 1, 2, n, n + 1, c.Intn(300), 65535, 65536, -1}[c.Intn(9)]}
		case 1:
			d = derivation{Kind: "keep", Gids: []unitype.GlyphIndex{0, unitype.GlyphIndex(n), unitype.GlyphIndex(c.Intn(100)), unitype.GlyphIndex(c.Intn(65536))}[:1+c.Intn(4)]}
		case 2:
			d = derivation{Kind: "runes", Runes: runes[:c.Intn(len(runes)+1)]}
		}
		var g *unitype.Font
		var err error
		step(d.Kind, func() { g, err = d.apply(f) })
		if err == nil && g != nil && !c.Failed() {
			c.Count("damaged fonts subset", 1)
			exercise(c, g, 0)
		}
	}
	step("Optimize", func() { f.Optimize() })
	step("PruneTables", func() { f.PruneTables("post", "cmap", "name", "x") })
	step("Write", func() { write(f) })
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	s = strings.TrimPrefix(s, "panic: ")
	if i := strings.IndexAny(s, "[0123456789"); i > 20 {
		s = s[:i]
	}
	return s
}

func r21(c *mon.C, i int) {
	var b []byte
	how := ""
	switch k := c.Intn(40); {
	case k == 0:
		b = make([]byte, c.Intn(300))
		c.Read(b)
		how = "arbitrary bytes"
	case k == 1:
		b = make([]byte, 12+16*c.Intn(12)+c.Intn(400))
		c.Read(b)
		copy(b, []byte{0, 1, 0, 0, 0, byte(c.Intn(12))})
		for p := 12; p+16 <= len(b); p += 16 {
			copy(b[p:], gen.Raw4([]string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "cmap", "name", "post", "OS/2", "cvt", "prep", "fpgm"}[c.Intn(13)]))
			be.PutUint32(b[p+8:], uint32(c.Intn(len(b)+10)))
			be.PutUint32(b[p+12:], uint32(c.Intn(len(b)+10)))
		}
		how = "arbitrary directory"
	default:
		o := gen.Opt{MaxN: 60, Small: c.Intn(3) == 0, NeedComp: c.Intn(3) == 0}
		if c.Intn(300) == 0 {
			o = gen.Opt{}
		}
		f := gen.Font(c.Rand, o)
		b = f.Bytes
		if c.Intn(60) == 0 {
			r := reals()[c.Intn(len(reals()))]
			if len(r.b) < 400000 {
				b = append([]byte(nil), r.b...)
				c.Count("real fonts damaged", 1)
			}
		}
		if c.Intn(12) == 0 { // truncation
			b = b[:c.Intn(len(b)+1)]
			how = "truncated"
		} else {
			var other []byte
			if c.Intn(4) == 0 {
				other = gen.Font(c.Rand, gen.Opt{MaxN: 60}).Bytes
			}
			var hs []string
			b, hs = gen.Mutate(c.Rand, b, other)
			if c.Intn(4) == 0 {
				var h string
				b, h = gen.Inflate(c.Rand, b)
				hs = append(hs, h)
			}
			how = strings.Join(hs, ", ")
		}
		if c.Intn(3) == 0 {
			gen.FixSums(b)
		}
	}
	c.Blob("input", b)
	var f *unitype.Font
	var err error
	in := append([]byte(nil), b...)
	if p := mon.Guard(func() { f, err = parse(in) }); p != "" {
		c.Fail("Parse panics: "+firstLine(p), "%s: %s", how, p)
		return
	}
	if (f == nil) == (err == nil) {
		c.Fail("neither font nor error", "%s: Parse returns font %v, error %v", how, f != nil, err)
		return
	}
	if p := mon.Guard(func() { unitype.ValidateBytes(in) }); p != "" {
		c.Fail("ValidateBytes panics: "+firstLine(p), "%s: %s", how, p)
		return
	}
	if !bytes.Equal(in, b) {
		c.Fail("input changed", "%s: %s", how, diffBytes(b, in))
		return
	}
	if err == nil {
		c.Count("damaged fonts parsed", 1)
		deep := 1
		if c.Intn(6) == 0 {
			deep = 2
		}
		exercise(c, f, deep)
	} else {
		c.Count("damaged fonts refused", 1)
	}
	if c.Intn(50) == 0 {
		p := filepath.Join(c.Scratch(), "r21.ttf")
		os.WriteFile(p, b, 0o644)
		if q := mon.Guard(func() { unitype.ValidateFile(p); unitype.ParseFile(p) }); q != "" {
			c.Fail("file functions panic: "+firstLine(q), "%s: %s", how, q)
			return
		}
	}
	c.EvalBytes(b)
	c.Sample(how)
}

func r22(c *mon.C, i int) {
	debug.SetGCPercent(400)
	var b []byte
	how, key := "", "allocation"
	switch {
	case i%6000 == 1003:
		b, how, key = gen.SharedCmap(c.Rand), "one character map shared by many records", "shared-cmap"
		c.Count("fonts with one character map shared by many records", 1)
	case i%100 == 33:
		b, how = gen.SharedNames(c.Rand), "names sharing long strings"
		c.Count("fonts with names sharing long strings", 1)
	case i%200 == 53:
		b, how = gen.OverlappingSegments(c.Rand), "overlapping format 4 segments"
		c.Count("fonts with overlapping format 4 segments", 1)
	case i%200 == 83:
		b, how = gen.OverlappingGroups(c.Rand), "overlapping or out of range format 12 groups"
		c.Count("fonts with overlapping or out of range format 12 groups", 1)
	case i%400 == 153:
		b, how = gen.OverlappingTables(c.Rand), "many table records for the same bytes"
		c.Count("fonts with many table records for the same bytes", 1)
	case i%400 == 297:
		b, how = gen.EmptyGlyphs(c.Rand), "very many empty glyphs"
		c.Count("fonts of very many empty glyphs", 1)
	default:
		f := gen.Font(c.Rand, gen.Opt{MaxN: 30, Small: c.Intn(2) == 0})
		b, how = gen.Inflate(c.Rand, f.Bytes)
		if c.Intn(3) == 0 {
			var h2 string
			b, h2 = gen.Inflate(c.Rand, b)
			how += ", " + h2
		}
		if c.Intn(2) == 0 {
			gen.FixSums(b)
		}
	}
	c.Blob("input", b)
	limit := uint64(8<<20 + 400*len(b))
	for k, run := range []func() error{func() error { _, err := parse(b); return err }, func() error { return unitype.ValidateBytes(b) }} {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		err := run()
		runtime.ReadMemStats(&m1)
		used := m1.TotalAlloc - m0.TotalAlloc
		if used > limit {
			c.Fail(key, "%s (%d bytes): %s allocates %d bytes (result %v)", how, len(b), []string{"Parse", "ValidateBytes"}[k], used, err)
			return
		}
		if err == nil {
			c.Count("inflated fonts accepted", 1)
		}
		c.Count("MB allocated", int(used>>20))
		if used > 8<<20 {
			c.Count("allocations above 8 MB", 1)
		}
	}
	c.EvalBytes(b)
	c.Sample(how)
}

// limitFiles runs f while no file of this process can grow beyond n bytes: a full disk that endangers nothing.
func limitFiles(n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	if lim.Cur > n {
		lim.Cur = n
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// --- read faults ---

type faultReader struct {
	*bytes.Reader
	ops    int
	failAt int // operation that fails, -1 none
	always bool
	chunk  int // most bytes per read, 0 any
	eof    bool
	idle   func() bool // whether to return nothing this time
	eofErr error
	part   bool // a failing read delivers data all the same
}

func (r *faultReader) bad() bool {
	r.ops++
	return r.failAt >= 0 && (r.ops-1 == r.failAt || r.always && r.ops-1 > r.failAt)
}

var errInjected = fmt.Errorf("injected fault")

func (r *faultReader) Read(p []byte) (int, error) {
	if r.bad() {
		if r.part {
			if r.chunk > 0 && len(p) > r.chunk {
				p = p[:r.chunk]
			}
			n, _ := r.Reader.Read(p)
			return n, errInjected
		}
		return 0, errInjected
	}
	if r.idle != nil && r.idle() {
		return 0, nil
	}
	if r.chunk > 0 && len(p) > r.chunk {
		p = p[:r.chunk]
	}
	n, err := r.Reader.Read(p)
	if r.eof && r.Reader.Len() == 0 && err == nil {
		err = io.EOF
	}
	return n, err
}

func (r *faultReader) Seek(o int64, w int) (int64, error) {
	if r.bad() {
		return 0, errInjected
	}
	return r.Reader.Seek(o, w)
}

type rs struct{ r *faultReader }

func (x rs) Read(p []byte) (int, error)         { return x.r.Read(p) }
func (x rs) Seek(o int64, w int) (int64, error) { return x.r.Seek(o, w) }
func reader(b []byte, failAt int) *faultReader {
	return &faultReader{Reader: bytes.NewReader(b), failAt: failAt}
}
func obsAll(f *unitype.Font, n int) (string, bool) {
	b, err := write(f)
	o := append(observe(f, n, []rune("ABCabc019é\u4e00")), fmt.Sprint(err == nil), hash(b))
	return strings.Join(o, "\n"), err == nil
}

func r23(c *mon.C, i int) {
	o := gen.Opt{MaxN: 10, Small: true}
	every := true
	var x *fc
	switch {
	case i%4 == 1:
		o, every = gen.Opt{MaxN: 200}, false
	case i%8 == 2:
		r := reals()[(i/8)%len(reals())]
		x, every = &fc{r.name, r.b, r.sem, nil}, false
	}
	if x == nil {
		x = generated(c, o)
	}
	ref := mustParse(c, x.b, x.features())
	if ref == nil {
		return
	}
	want, _ := obsAll(ref, x.sem.NumGlyphs)
	judge := func(f *unitype.Font, err error, mayFail bool, what string, a ...interface{}) bool {
		if err != nil {
			if !mayFail {
				c.Fail("reader makes a difference", "%s: Parse: %v; %s", fmt.Sprintf(what, a...), err, x.features())
				return false
			}
			c.Count("faults reported", 1)
			return true
		}
		if f == nil {
			c.Fail("neither font nor error", "%s", fmt.Sprintf(what, a...))
			return false
		}
		got, _ := obsAll(f, x.sem.NumGlyphs)
		if got != want {
			c.Fail("silently different font", "%s: Parse succeeds, but %s; %s", fmt.Sprintf(what, a...), firstDiff(strings.Split(want, "\n"), strings.Split(got, "\n")), x.features())
			return false
		}
		c.Count("faults without effect", 1)
		return true
	}
	// how many operations
	cnt := reader(x.b, -1)
	if _, err := unitype.Parse(rs{cnt}); err != nil {
		c.Fail("parse fails", "%v", err)
		return
	}
	c.Count("read and seek operations of parsing", cnt.ops)
	var ks []int
	lim := 400
	if c.Thorough {
		lim = 4000
	}
	if every && cnt.ops <= lim {
		for k := 0; k < cnt.ops; k++ {
			ks = append(ks, k)
		}
		c.Count("fonts with every operation failing in turn", 1)
	} else {
		for k := 0; k < 40; k++ {
			ks = append(ks, c.Intn(cnt.ops))
		}
		for k := 0; k < 20; k++ {
			ks = append(ks, k, cnt.ops-1-k)
		}
	}
	for _, k := range ks {
		if k < 0 || k >= cnt.ops {
			continue
		}
		for _, always := range []bool{false, true} {
			r := reader(x.b, k)
			r.always = always
			f, err := unitype.Parse(rs{r})
			if !judge(f, err, true, "operation %d of %d fails (for good: %v)", k, cnt.ops, always) {
				return
			}
			c.Eval("%x op %d %v", hash(x.b), k, always)
		}
	}
	// truncations
	cut := func(k int) bool {
		f, err := parse(x.b[:k])
		ok := true
		if p := mon.Guard(func() { ok = judge(f, err, true, "cut to %d of %d bytes", k, len(x.b)) }); p != "" {
			c.Fail("truncated font panics", "cut to %d of %d bytes: %s", k, len(x.b), p)
			return false
		}
		c.Eval("%x cut %d", hash(x.b), k)
		c.Count("truncations", 1)
		return ok
	}
	d, _ := sfnt.ReadDir(x.b)
	if every {
		step := 1
		if !c.Thorough {
			step = 1 + len(x.b)/1500
		}
		for k := c.Intn(step); k < len(x.b); k += step {
			if !cut(k) {
				return
			}
		}
	}
	for _, r := range d.Recs {
		for _, k := range []int{int(r.Off), int(r.Off) + 1, int(r.Off + r.Len), int(r.Off+r.Len) - 1, int(r.Off) + c.Intn(int(r.Len)+1)} {
			if k >= 0 && k < len(x.b) && !cut(k) {
				return
			}
		}
	}
	// each table in turn last in the file, and cut off
	for _, r := range d.Recs {
		if r.Len == 0 || c.Intn(2) == 0 {
			continue
		}
		b := append([]byte(nil), x.b...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		at := len(b)
		b = append(b, x.b[r.Off:r.Off+r.Len]...)
		for k := 0; k < int(b[4])<<8|int(b[5]); k++ {
			if e := b[12+16*k:]; string(e[:4]) == r.Tag {
				e[8], e[9], e[10], e[11] = byte(at>>24), byte(at>>16), byte(at>>8), byte(at)
			}
		}
		cuts := []int{0, -1, -2, -3, -4, -5, -8}
		for k := 0; k < 8; k++ {
			cuts = append(cuts, -c.Intn(int(r.Len)))
		}
		for _, k := range cuts {
			if len(b)+k <= at {
				continue
			}
			f, err := parse(b[:len(b)+k])
			ok := true
			if p := mon.Guard(func() { ok = judge(f, err, k < 0, "%s last in the file, of its %d bytes %d missing", r.Tag, r.Len, -k) }); p != "" {
				c.Fail("truncated font panics", "%s last in the file, of its %d bytes %d missing: %s", r.Tag, r.Len, -k, p)
				return
			}
			if !ok {
				return
			}
			c.Count("last tables cut off", 1)
		}
	}
	// data delivered in pieces, with a failure in between
	many := 60
	if c.Thorough {
		many = 2000
	}
	if !every {
		many /= 4
	}
	for _, chunk := range []int{1, 2 + c.Intn(3), 5 + c.Intn(60)} {
		cnt := reader(x.b, -1)
		cnt.chunk = chunk
		if f, err := unitype.Parse(rs{cnt}); !judge(f, err, false, "reader with chunks of %d", chunk) {
			return
		}
		for j := 0; j < many; j++ {
			r := reader(x.b, c.Intn(cnt.ops))
			r.chunk, r.always, r.part = chunk, c.Intn(3) == 0, c.Intn(3) == 0
			f, err := unitype.Parse(rs{r})
			if !judge(f, err, true, "operation %d of %d fails (for good: %v; with data: %v) where reads give at most %d bytes", r.failAt, cnt.ops, r.always, r.part, chunk) {
				return
			}
			c.Eval("%x op %d %v %v %d", hash(x.b), r.failAt, r.always, r.part, chunk)
		}
		c.Count("faults between pieces", many)
	}
	// unorthodox readers
	for k := 0; k < 8; k++ {
		r := reader(x.b, -1)
		switch k {
		case 0:
			r.chunk = 1
		case 1:
			r.eof = true
		case 2:
			r.chunk, r.eof = 3, true
		case 3:
			n := 0
			r.idle = func() bool { n++; return n%3 == 0 }
		default:
			r.chunk = 1 + c.Intn(5000)
			r.eof = c.Intn(2) == 0
			if c.Intn(2) == 0 {
				n := 0
				r.idle = func() bool { n++; return n%2 == 0 }
			}
		}
		if c.Intn(2) == 0 {
			r.Seek(int64(c.Intn(len(x.b))), 0) // parsing starts at the beginning of the file wherever the reader stands
			r.Seek(0, 0)
		}
		f, err := unitype.Parse(rs{r})
		if !judge(f, err, false, "reader with chunks of %d, data with EOF %v, empty reads %v", r.chunk, r.eof, r.idle != nil) {
			return
		}
		c.Eval("%x reader %d %d %v", hash(x.b), k, r.chunk, r.eof)
		c.Count("unorthodox readers", 1)
	}
	// files
	p := filepath.Join(c.Scratch(), "r23.ttf")
	for k := 0; k < 8; k++ {
		b := x.b
		if k > 1 {
			b = x.b[:c.Intn(len(x.b))]
		}
		if k > 4 {
			b = append([]byte(nil), x.b...)
			b[c.Intn(len(b))] ^= byte(1 + c.Intn(255))
		}
		os.WriteFile(p, b, 0o644)
		before := openFiles(p)
		var f *unitype.Font
		var err error
		if q := mon.Guard(func() { f, err = unitype.ParseFile(p); unitype.ValidateFile(p) }); q != "" {
			break // R21's subject
		}
		if k < 5 && !judge(f, err, k > 1, "file with the first %d of %d bytes", len(b), len(x.b)) {
			return
		}
		if after := openFiles(p); after > before {
			c.Fail("file left open", "file open %d times before ParseFile and ValidateFile, %d after (result %v)", before, after, err)
			return
		}
		c.Count("files parsed and validated, and none left open", 1)
	}
	c.Sample(fmt.Sprintf("%d operations; %s", cnt.ops, x.features()))
}

// openFiles tells how many times this process has the file at path open.
func openFiles(path string) (n int) {
	e, _ := os.ReadDir("/proc/self/fd")
	for _, l := range e {
		if t, err := os.Readlink("/proc/self/fd/" + l.Name()); err == nil && path != "" && t == path {
			n++
		}
	}
	return
}

// --- write faults ---

type faultWriter struct {
	buf    bytes.Buffer
	limit  int
	short  bool // report a short count, with an error
	once   bool
	late   bool // take what is over the limit all the same, and fail
	failed int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed > 0 && !w.once {
		w.failed++
		return 0, errInjected
	}
	if w.failed == 0 && w.buf.Len()+len(p) > w.limit {
		w.failed++
		n := 0
		if w.late {
			n = len(p)
			w.buf.Write(p)
		} else if w.short {
			n = w.limit - w.buf.Len()
			w.buf.Write(p[:n])
		}
		return n, errInjected
	}
	w.buf.Write(p)
	return len(p), nil
}

func r24(c *mon.C, i int) {
	var x *fc
	small := i%2 == 0
	if i%8 == 1 {
		r := reals()[(i/8)%len(reals())]
		x = &fc{r.name, r.b, r.sem, nil}
	} else {
		x = generated(c, gen.Opt{MaxN: map[bool]int{true: 10, false: 200}[small], Small: small})
	}
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	f, _, ds, ok := chain(c, f, x.sem, c.Intn(3))
	if !ok {
		return
	}
	what := fmt.Sprintf("%v of %s", ds, x.features())
	want := mustWrite(c, f, what)
	if want == nil {
		return
	}
	var ks []int
	if small && len(want) < 3000 {
		for k := 0; k < len(want); k++ {
			ks = append(ks, k)
		}
		c.Count("outputs failed at every byte", 1)
	} else {
		ks = []int{0, 1, 11, 12, 13, 28, len(want) - 1, len(want) / 2}
		for k := 0; k < 24; k++ {
			ks = append(ks, c.Intn(len(want)))
		}
		d, _ := sfnt.ReadDir(want)
		for _, r := range d.Recs {
			ks = append(ks, int(r.Off), int(r.Off)+1)
		}
	}
	for n, k := range ks {
		if k < 0 || k >= len(want) {
			continue
		}
		w := &faultWriter{limit: k, short: c.Intn(2) == 0, once: c.Intn(2) == 0, late: n%4 == 0}
		if w.late {
			c.Count("failures of a write that took all bytes", 1)
		}
		err := f.Write(w)
		if w.failed == 0 {
			c.Fail("output incomplete", "%s: a destination that takes %d of %d bytes was never overrun", what, k, len(want))
			return
		}
		if err == nil {
			c.Fail("write error lost", "%s: the destination failed after %d of %d bytes, Write reports success", what, k, len(want))
			return
		}
		if !bytes.HasPrefix(want, w.buf.Bytes()) {
			c.Fail("delivered bytes are no prefix", "%s: failure after %d bytes (short count %v, once %v, late %v): %s", what, k, w.short, w.once, w.late, diffBytes(want, w.buf.Bytes()))
			return
		}
		if n%16 == 0 || n == len(ks)-1 {
			if b := mustWrite(c, f, what); !bytes.Equal(b, want) {
				c.Fail("font differs after a failed write", "%s: %s", what, diffBytes(want, b))
				return
			}
		}
		c.Count("write faults", 1)
		c.Eval("%s %d %v %v %v", hash(want), k, w.short, w.once, w.late)
	}
	// files
	dir := c.Scratch()
	p := filepath.Join(dir, "r24.ttf")
	expect := func(path string, wantErr bool, k string) bool {
		before := openFiles(path)
		err := f.WriteFile(path)
		if after := openFiles(path); after > before {
			c.Fail("file left open", "%s: WriteFile to %s: open %d times before, %d after (result %v)", what, k, before, after, err)
			return false
		}
		if (err != nil) != wantErr {
			c.Fail("WriteFile to "+k, "%s: WriteFile to %s: %v", what, k, err)
			return false
		}
		if !wantErr {
			if b, _ := os.ReadFile(path); !bytes.Equal(b, want) {
				c.Fail("WriteFile to "+k, "%s: WriteFile to %s: %s", what, k, diffBytes(want, b))
				return false
			}
		}
		c.Count("WriteFile to "+k, 1)
		c.Eval("%s file %s", hash(want), k)
		return true
	}
	os.Remove(p)
	if !expect(p, false, "a new file") {
		return
	}
	long := make([]byte, len(want)+1+c.Intn(5000))
	c.Read(long)
	os.WriteFile(p, long, 0o644)
	if !expect(p, false, "an existing longer file") || !expect(p, false, "the same file again") {
		return
	}
	os.WriteFile(p, long[:len(long)/4], 0o644)
	if !expect(p, false, "an existing shorter file") ||
		!expect(filepath.Join(dir, "nosuch", "x.ttf"), true, "a directory that does not exist") ||
		!expect(dir, true, "a directory") || !expect("", true, "no path") {
		return
	}
	// a disk on which so many bytes fit, and not more
	fits := []int{0, len(want) - 1, len(want), c.Intn(len(want)), len(want) - 1 - c.Intn(len(want))%4096}
	for _, k := range fits {
		kind := "a full disk"
		if k == len(want) {
			kind = "a disk with just enough space"
		}
		ok := false
		limitFiles(uint64(k), func() { ok = expect(p, k < len(want), kind) })
		if !ok {
			return
		}
		c.Eval("%s disk %d", hash(want), k)
	}
	if b := mustWrite(c, f, what); !bytes.Equal(b, want) {
		c.Fail("font differs after a failed write", "%s: %s", what, diffBytes(want, b))
		return
	}
	c.Sample(what)
}
