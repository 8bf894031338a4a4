// Package gen makes TrueType fonts from a random source: well-formed ones (Font) covering the variety the formats
// allow, and hostile ones (Mutate). It shares no code with the library under observation.
package gen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"github.com/unidoc/unitype/verifmon/sfnt"
)

var be = binary.BigEndian

// T is one table to assemble.
type T struct {
	Tag  string
	Data []byte
}

// F is a generated font.
type F struct {
	Bytes    []byte
	Tables   []T
	Features map[string]bool // what the font exercises
	N        int             // number of glyphs
}

// Has reports whether the font shows a feature.
func (f *F) Has(s string) bool { return f.Features[s] }

// Opt narrows what Font makes. Zero values mean "any".
type Opt struct {
	N         int  // number of glyphs
	MaxN      int  // upper bound on the number of glyphs
	Small     bool // keep everything small (fault enumeration)
	Huge      bool // allow very large fonts
	NeedCmap  bool
	NeedName  bool
	NeedComp  bool // several composites
	Plain     bool // no rarities: standard tables only
	NoRelaxed bool // no slack bytes after tables that declare their size elsewhere
	Extreme   int  // 1..len(Extremes): which count or length goes far beyond what is usual
}

// Extremes are the counts and lengths which a font may take far beyond what is usual.
var Extremes = []string{
	"component chain of more than 16 levels",
	"glyph of more than 60 components",
	"more than 30 tables",
	"cmap of more than 8 subtables",
	"more than 120 name records",
	"instruction tables of more than 32 KB",
	"table of more than 1 MB",
	"more than 400 names in post",
	"composite instructions of more than 255 bytes",
	"cmap subtables of thousands of runs",
	"contours and points beyond 255",
	"glyphs beyond 32767",
	"whole font of more than 16 MB",
}

const (
	exChain = 1 + iota
	exWide
	exTables
	exSubtables
	exNames
	exPrograms
	exBigTable
	exPost
	exInstr
	exRuns
	exPoints
	exGlyphs
	exBigFont
)

// Raw4 pads a tag.
func Raw4(tag string) string { return (tag + "    ")[:4] }

// Assemble lays tables out into a font file, with the directory sorted, checksums right and the data of tables
// in the order given by perm (nil: as listed). padLast pads the last table as well.
func Assemble(version uint32, tables []T, perm []int, padLast bool) []byte {
	n := len(tables)
	if perm == nil {
		for i := range tables {
			perm = append(perm, i)
		}
	}
	hdr := 12 + 16*n
	off := make([]int, n)
	body := []byte{}
	for k, i := range perm {
		off[i] = hdr + len(body)
		body = append(body, tables[i].Data...)
		if k < n-1 || padLast {
			for len(body)%4 != 0 {
				body = append(body, 0)
			}
		}
	}
	out := make([]byte, hdr, hdr+len(body))
	be.PutUint32(out, version)
	be.PutUint16(out[4:], uint16(n))
	es := 0
	for 1<<(es+1) <= n {
		es++
	}
	be.PutUint16(out[6:], uint16(16<<es))
	be.PutUint16(out[8:], uint16(es))
	be.PutUint16(out[10:], uint16(16*n-16<<es))
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return Raw4(tables[idx[a]].Tag) < Raw4(tables[idx[b]].Tag) })
	out = append(out, body...)
	for k, i := range idx {
		p := out[12+16*k:]
		copy(p, Raw4(tables[i].Tag))
		be.PutUint32(p[8:], uint32(off[i]))
		be.PutUint32(p[12:], uint32(len(tables[i].Data)))
	}
	FixSums(out)
	return out
}

// FixSums recomputes the table checksums and the whole-file adjustment of b in place, as far as the directory
// makes sense.
func FixSums(b []byte) {
	d, err := sfnt.ReadDir(b)
	if err != nil {
		return
	}
	h := d.Find("head")
	okHead := h != nil && uint64(h.Off)+12 <= uint64(len(b))
	if okHead {
		be.PutUint32(b[h.Off+8:], 0)
	}
	for i, r := range d.Recs {
		if uint64(r.Off)+uint64(r.Len) <= uint64(len(b)) {
			be.PutUint32(b[12+16*i+4:], sfnt.Sum(b[r.Off:r.Off+r.Len]))
		}
	}
	if okHead {
		be.PutUint32(b[h.Off+8:], 0xB1B0AFBA-sfnt.Sum(b))
	}
}

type g struct {
	*rand.Rand
	o  Opt
	f  *F
	ex int
}

func (x *g) p(pct int) bool { return x.Intn(100) < pct }
func (x *g) rare(pct int) bool {
	return !x.o.Plain && x.Intn(100) < pct
}
func (x *g) feat(s string, a ...interface{}) { x.f.Features[fmt.Sprintf(s, a...)] = true }
func (x *g) bytes(n int) []byte {
	b := make([]byte, n)
	x.Read(b)
	return b
}
func (x *g) u16s(n int) []byte { return x.bytes(2 * n) }

// fields is n bytes of numbers: any values, many at the ends of their ranges, or nearly all zero.
func (x *g) fields(n int) []byte {
	b := x.bytes(n)
	pct := []int{0, 10, 40, 90}[x.Intn(4)]
	ends := []uint16{0, 0, 0, 1, 2, 0x7FFF, 0x8000, 0xFFFF}
	if pct == 90 {
		ends = ends[:1+x.Intn(4)]
		x.feat("header fields mostly zero or one")
	}
	for i := 0; i+2 <= n; i += 2 {
		if x.p(pct) {
			be.PutUint16(b[i:], ends[x.Intn(len(ends))])
		}
	}
	return b
}

// Font makes a well-formed font.
func Font(r *rand.Rand, o Opt) *F {
	x := &g{Rand: r, o: o, f: &F{Features: map[string]bool{}}}
	x.ex = o.Extreme
	if x.ex == exGlyphs && (o.MaxN > 0 && o.MaxN < 33000) {
		x.ex = exChain
	}
	if x.ex > 0 {
		x.feat("%s", Extremes[x.ex-1])
	}
	n := o.N
	if n == 0 {
		switch x.ex {
		case exChain:
			n = 20 + x.Intn(380)
		case exPost:
			n = 401 + x.Intn(1500)
		case exBigFont:
			if x.p(50) {
				n = 290 + x.Intn(40)
			}
		case exRuns:
			n = 1000 + x.Intn(3000)
		case exGlyphs:
			n = 32760 + x.Intn(4000)
			if x.p(20) {
				n = 65535 - x.Intn(3)
			}
		}
	}
	if n == 0 {
		switch k := x.Intn(100); {
		case o.Small:
			n = 1 + x.Intn(9)
		case k < 12:
			n = 1 + x.Intn(8)
		case k < 70:
			n = 4 + x.Intn(57)
		case k < 82:
			n = 61 + x.Intn(140)
		case k < 87:
			n = 258
		case k < 93:
			n = 250 + x.Intn(60)
		case k < 98:
			n = 300 + x.Intn(700)
		case o.Huge, k == 99 && x.p(60):
			n = 2000 + x.Intn(63000)
		default:
			n = 1000 + x.Intn(1500)
		}
	}
	if o.MaxN > 0 && n > o.MaxN {
		n = 1 + x.Intn(o.MaxN)
	}
	if n > 700 && (x.ex == exWide || x.ex == exInstr || x.ex == exPoints || x.ex == exBigFont) {
		n = 300 + n%400
	}
	x.f.N = n
	add := func(tag string, data []byte) {
		switch tag {
		case "head", "hhea", "maxp", "name", "OS/2", "post", "cmap":
			if !o.NoRelaxed && x.rare(2) {
				data = append(data, x.bytes(1+x.Intn(40))...)
				x.feat("%s longer than its contents", tag)
			}
		}
		x.f.Tables = append(x.f.Tables, T{tag, data})
	}

	loca, glyf, short := x.glyphs(n)
	// head
	head := x.fields(54)
	copy(head, []byte{0, 1, 0, 0})
	be.PutUint32(head[8:], 0)
	be.PutUint32(head[12:], 0x5F0F3CF5)
	be.PutUint16(head[18:], uint16(16+x.Intn(16369)))
	if x.p(30) {
		be.PutUint16(head[18:], []uint16{16, 16384, 1000, 2048, 4096}[x.Intn(5)])
	}
	be.PutUint16(head[50:], 1)
	if short {
		be.PutUint16(head[50:], 0)
	}
	add("head", head)
	// maxp
	maxp := x.fields(32)
	be.PutUint32(maxp, 0x00010000)
	be.PutUint16(maxp[4:], uint16(n))
	if x.p(60) { // maxima as small as fonts state them, true or not
		for i := 6; i < 32; i += 2 {
			be.PutUint16(maxp[i:], uint16(x.Intn(1+[]int{1, 2, 10, 300}[x.Intn(4)])))
		}
		x.feat("small maxima")
	}
	add("maxp", maxp)
	// hhea, hmtx
	hhea := x.fields(36)
	copy(hhea, []byte{0, 1, 0, 0})
	copy(hhea[24:], make([]byte, 8))
	hmtx, nhm := x.hmtx(n)
	be.PutUint16(hhea[34:], uint16(nhm))
	add("hhea", hhea)
	if x.rare(3) {
		x.feat("no hmtx")
	} else {
		if !o.NoRelaxed && x.rare(4) {
			hmtx = append(hmtx, x.bytes(1+x.Intn(9))...)
			x.feat("slack after hmtx")
		}
		add("hmtx", hmtx)
	}
	if !o.NoRelaxed && x.rare(4) {
		loca = append(loca, x.bytes(1+x.Intn(9))...)
		x.feat("slack after loca")
	}
	add("loca", loca)
	add("glyf", glyf)
	for _, t := range []string{"cvt", "prep", "fpgm"} {
		if x.p(60) || x.ex == exPrograms {
			l := x.Intn(90)
			if x.p(6) {
				l = 0
				x.feat("empty %s", t)
			} else if !o.Small && x.p(4) {
				l = 4000 + x.Intn(2000)
			}
			if x.ex == exPrograms {
				l = 32700 + x.Intn(100)
				switch x.Intn(4) {
				case 0:
					l = 65500 + x.Intn(100)
				case 1:
					l = 130000 + x.Intn(3000)
				}
			}
			if t == "cvt" {
				l &^= 1
			}
			d := x.bytes(l)
			if x.rare(5) {
				d = make([]byte, l)
				x.feat("table of zeros")
			}
			add(t, d)
			x.feat(t)
		}
	}
	if o.NeedName || !x.p(6) {
		add("name", x.name())
	} else {
		x.feat("no name")
	}
	if !x.p(8) {
		add("OS/2", x.os2())
	} else {
		x.feat("no OS/2")
	}
	if !x.p(6) {
		add("post", x.post(n))
	} else {
		x.feat("no post")
	}
	if o.NeedCmap || !x.p(6) {
		add("cmap", x.cmap(n))
	} else {
		x.feat("no cmap")
	}
	if x.p(45) {
		tags := []string{"GPOS", "GSUB", "GDEF", "kern", "DSIG", "gasp", "FFTM", "zzzz", "LTSH", "VDMX", "hdmx", "abc", "BASE"}
		x.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		for _, t := range tags[:1+x.Intn(4)] {
			add(t, x.bytes(x.Intn(100)))
			x.feat("unmodelled table")
		}
	}
	if x.ex == exTables {
		for i, k := 0, []int{20, 60, 120, 300, 600}[x.Intn(5)]+x.Intn(10); i < k; i++ {
			add(fmt.Sprintf("X%03d", i), x.bytes(x.Intn(20)))
		}
	}
	if x.ex == exBigTable {
		add("Zbig", x.bytes(1<<20-20+x.Intn(40)))
	}
	if x.ex == exBigFont && len(glyf) < 1<<24 {
		add("Zbig", x.bytes(1<<24+x.Intn(1000)))
	}
	ver := uint32(0x00010000)
	if x.rare(5) {
		ver = 0x74727565 // 'true'
		x.feat("version true")
	}
	perm := x.Perm(len(x.f.Tables))
	x.f.Bytes = Assemble(ver, x.f.Tables, perm, x.p(60))
	if len(x.f.Bytes)%4 != 0 {
		x.feat("unaligned file end")
	}
	return x.f
}

// glyphs makes loca and glyf.
func (x *g) glyphs(n int) (loca, glyf []byte, short bool) {
	short = x.p(50)
	var descs [][]byte
	tot := 0
	compPct := []int{0, 10, 25, 60}[x.Intn(4)]
	if x.o.NeedComp {
		compPct = 45
	}
	cyc := x.rare(4)
	if cyc {
		x.feat("component cycle possible")
	}
	allBig := x.ex == exBigFont && n > 260
	if allBig {
		short, compPct = false, 5
	}
	big := map[int]bool{}
	if !x.o.Small && x.rare(3) && n < 400 {
		for k := []int{1, 1, 2, 3}[x.Intn(4)]; k > 0; k-- {
			big[x.Intn(n)] = true
		}
	}
	emptyPct := []int{5, 20, 60}[x.Intn(3)]
	for i := 0; i < n; i++ {
		var d []byte
		switch {
		case allBig && x.p(90):
			d = x.simple(65000)
		case big[i]:
			d = x.simple(65536 + []int{-2, 0, 1, 2, x.Intn(3000)}[x.Intn(5)])
			x.feat("glyph of 64 KB or more")
			if len(big) > 1 {
				x.feat("several glyphs of 64 KB or more")
			}
		case x.ex == exChain && i > 0 && x.p(97):
			d = x.composite(i, n, cyc)
			x.feat("composite glyph")
		case x.ex == exPoints && x.p(20):
			d = x.simple(0)
		case x.p(emptyPct):
			x.feat("empty glyph")
		case (i > 0 || cyc) && x.p(compPct):
			d = x.composite(i, n, cyc)
			x.feat("composite glyph")
		default:
			sz := 0
			if !x.o.Small && x.p(2) {
				sz = 600 + x.Intn(2000)
			}
			d = x.simple(sz)
		}
		if len(d)%2 != 0 && (short || x.p(60)) {
			d = append(d, 0)
		}
		if len(d)%2 != 0 {
			x.feat("odd glyph length")
		}
		if x.rare(5) && len(d) > 0 {
			d = append(d, make([]byte, 2*x.Intn(3))...)
		}
		if short && tot+len(d) > 131000 {
			d = nil
		}
		tot += len(d)
		descs = append(descs, d)
	}
	base := 0
	if x.rare(6) && (!short || tot < 130000) {
		base = 2 + 2*x.Intn(20)
		x.feat("first glyph not at offset 0")
	}
	glyf = make([]byte, base)
	put := func(o int) {
		if short {
			loca = append(loca, byte(o/2>>8), byte(o/2))
		} else {
			loca = append(loca, byte(o>>24), byte(o>>16), byte(o>>8), byte(o))
		}
	}
	put(base)
	for _, d := range descs {
		glyf = append(glyf, d...)
		put(len(glyf))
	}
	if !x.o.NoRelaxed && x.rare(15) {
		glyf = append(glyf, make([]byte, 1+x.Intn(4))...)
		x.feat("slack after glyf")
	}
	if short {
		x.feat("short loca")
	} else {
		x.feat("long loca")
	}
	return
}

// simple makes a valid simple glyph of at least min bytes.
func (x *g) simple(min int) []byte {
	var b bytes.Buffer
	w := func(v ...int) {
		for _, k := range v {
			b.Write([]byte{byte(k >> 8), byte(k)})
		}
	}
	nc := 1 + x.Intn(3)
	most := 5
	if min == 0 && x.rare(3) { // a header, and perhaps no instructions
		x.feat("glyph without contours")
		w(0)
		b.Write(x.u16s(4))
		if x.p(50) {
			w(0)
		}
		return b.Bytes()
	}
	if x.ex == exPoints && min == 0 && x.p(10) {
		nc, most = 1+x.Intn(400), []int{2, 9, 40}[x.Intn(3)]
	}
	w(nc)
	b.Write(x.u16s(4))
	pts := 0
	for i := 0; i < nc; i++ {
		pts += 1 + x.Intn(most)
		w(pts - 1)
	}
	il := x.Intn(12)
	if min > 0 {
		il = min
		if il > 65000 {
			il = 65000
		}
	}
	w(il)
	b.Write(x.bytes(il))
	var fl []byte
	for i := 0; i < pts; i++ {
		fl = append(fl, byte(x.Intn(64))&^8)
	}
	for i := 0; i < pts; {
		j := i + 1
		for j < pts && j-i < 256 && fl[j] == fl[i] {
			j++
		}
		if j-i > 2 {
			b.Write([]byte{fl[i] | 8, byte(j - i - 1)})
		} else {
			b.Write(fl[i:j])
		}
		i = j
	}
	for _, bits := range [][2]byte{{2, 16}, {4, 32}} {
		for _, f := range fl {
			switch {
			case f&bits[0] != 0:
				b.Write(x.bytes(1))
			case f&bits[1] == 0:
				b.Write(x.bytes(2))
			}
		}
	}
	for b.Len() < min {
		b.Write(x.bytes(min - b.Len()))
	}
	return b.Bytes()
}

func (x *g) composite(i, n int, cyc bool) []byte {
	var b bytes.Buffer
	w := func(v ...int) {
		for _, k := range v {
			b.Write([]byte{byte(k >> 8), byte(k)})
		}
	}
	if x.rare(6) { // any negative number of contours makes a composite
		w(0x8000 + x.Intn(0x7FFF))
		x.feat("composite with other than -1 contours")
	} else {
		w(0xFFFF)
	}
	b.Write(x.u16s(4))
	k := 1 + x.Intn(4)
	instr := x.p(30)
	if x.ex == exWide && x.p(15) {
		k = []int{60, 120, 250, 260, 520}[x.Intn(5)] + x.Intn(10)
	}
	for c := 0; c < k; c++ {
		fl := 0
		for _, bit := range []int{1, 2, 4, 0x200, 0x400, 0x800, 0x1000} {
			if x.p(50) {
				fl |= bit
			}
		}
		switch x.Intn(5) {
		case 0:
			fl |= 8
		case 1:
			fl |= 0x40
		case 2:
			fl |= 0x80
		}
		if c < k-1 {
			fl |= 0x20
		}
		if instr && (c == k-1 || x.p(30)) {
			fl |= 0x100
		}
		gid := 0
		switch {
		case cyc:
			gid = x.Intn(n)
		case x.ex == exChain && c == 0:
			gid = i - 1
		case x.ex == exWide && x.p(50): // many components, all different
			gid = (i + i/2*c) % i
		case x.p(50): // chain: the nearest glyphs below
			gid = i - 1 - x.Intn(min(i, 3))
		default:
			gid = x.Intn(i)
		}
		w(fl, gid)
		if fl&1 != 0 {
			b.Write(x.u16s(2))
		} else {
			b.Write(x.bytes(2))
		}
		switch {
		case fl&8 != 0:
			b.Write(x.u16s(1))
		case fl&0x40 != 0:
			b.Write(x.u16s(2))
		case fl&0x80 != 0:
			b.Write(x.u16s(4))
		}
	}
	if instr {
		il := x.Intn(14)
		if x.ex == exInstr && x.p(30) {
			il = []int{250, 500, 3000, 32760}[x.Intn(4)] + x.Intn(20)
		}
		w(il)
		b.Write(x.bytes(il))
	}
	return b.Bytes()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *g) hmtx(n int) (b []byte, nhm int) {
	switch x.Intn(6) {
	case 0:
		nhm = 1
	case 1, 2:
		nhm = 1 + x.Intn(n)
	default:
		nhm = n
	}
	// equal advance tail
	eq := nhm
	switch x.Intn(4) {
	case 0:
		eq = 0
		x.feat("monospaced")
	case 1:
		eq = x.Intn(nhm + 1)
	}
	last := x.Intn(65536)
	small := x.p(30)
	few := x.p(40)
	ends := x.p(20)
	lsb := func() []byte {
		if few { // side bearings that repeat
			return []byte{0, byte(x.Intn(3))}
		}
		return x.bytes(2)
	}
	for i := 0; i < nhm; i++ {
		a := x.Intn(65536)
		if ends {
			a = []int{0, 0, 1, 0x7FFF, 0x8000, 0xFFFF}[x.Intn(6)]
		}
		if small {
			a = 500 + x.Intn(2)
			last = 500
		}
		if i >= eq {
			a = last
		}
		b = append(b, byte(a>>8), byte(a))
		b = append(b, lsb()...)
	}
	for i := nhm; i < n; i++ {
		b = append(b, lsb()...)
	}
	if nhm < n {
		x.feat("shared advance widths")
	}
	return
}

func (x *g) os2() []byte {
	v := x.Intn(6)
	b := x.fields(sfnt.OS2Len(uint16(v)))
	be.PutUint16(b, uint16(v))
	x.feat("OS/2 version %d", v)
	if v == 0 && x.p(30) { // as Apple defined it at first
		b = b[:68]
		x.feat("OS/2 of 68 bytes")
	}
	return b
}

func (x *g) post(n int) []byte {
	b := x.fields(32)
	v := []uint32{0x20000, 0x20000, 0x20000, 0x30000, 0x25000, 0x40000}[x.Intn(6)]
	if n == 258 && x.p(50) {
		v = 0x10000
	}
	if x.ex == exPost {
		v = 0x20000
	}
	if x.o.Plain && v != 0x10000 {
		v = 0x30000
	}
	if v == 0x25000 && n > 380 {
		v = 0x30000
	}
	be.PutUint32(b, v)
	x.feat("post %.1f", float64(v>>16)+float64(v&0xffff)/0x10000)
	u16 := func(v int) { b = append(b, byte(v>>8), byte(v)) }
	switch v {
	case 0x20000:
		u16(n)
		// names: each extra name is used at least once, in any order, possibly several times
		k := x.Intn(n + 1)
		if k > 400 {
			k = 400
		}
		if x.p(20) {
			k = 0
		}
		if x.ex == exPost {
			k = n - x.Intn(n/8+1)
		}
		idx := make([]int, n)
		used := x.Perm(k)
		if k > 0 && x.rare(10) {
			used = used[:1+x.Intn(k)]
			x.feat("post name not used")
		}
		for i := range idx {
			if i < len(used) {
				idx[i] = 258 + used[i]
			} else if k > 0 && x.p(15) {
				idx[i] = 258 + used[x.Intn(len(used))]
				x.feat("post name used twice")
			} else {
				idx[i] = x.Intn(258)
			}
		}
		if x.p(70) {
			x.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		}
		for _, v := range idx {
			u16(v)
		}
		long := x.ex == exPost && x.p(30)
		for i := 0; i < k; i++ {
			l := 1 + x.Intn(12)
			if long {
				l = 30 + x.Intn(130)
			}
			if !x.o.Small && x.rare(1) {
				l = 100 + x.Intn(156)
				if l > 127 {
					x.feat("post name longer than 127 bytes")
				}
			}
			if x.rare(1) {
				l = 0
				x.feat("empty post name")
			}
			b = append(b, byte(l))
			for ; l > 0; l-- {
				b = append(b, "abcdefghijklmnopqrstuvwxyzABCDEF0123456789._"[x.Intn(44)])
			}
		}
		if len(b) > 65535 {
			x.feat("post of more than 64 KB")
		}
	case 0x25000:
		u16(n)
		for i := 0; i < n; i++ {
			// i + offset in [0,257]
			lo, hi := -i, 257-i
			if lo < -128 {
				lo = -128
			}
			if hi > 127 {
				hi = 127
			}
			k := x.Intn(hi - lo + 1 + 64)
			switch {
			case k > hi-lo+40:
				k = hi - lo
			case k > hi-lo+20:
				k = 0
			case k > hi-lo:
				k = min(-lo, hi-lo)
			}
			b = append(b, byte(int8(lo+k)))
		}
	}
	return b
}

func u16be(s []uint16) (b []byte) {
	for _, v := range s {
		b = append(b, byte(v>>8), byte(v))
	}
	return
}

// text returns random UTF-16BE text.
func (x *g) text16(l int) (b []byte) {
	for i := 0; i < l; i++ {
		switch k := x.Intn(20); {
		case k < 12:
			b = append(b, 0, byte(0x20+x.Intn(95)))
		case k == 12:
			b = append(b, 0, byte(x.Intn(0x20)))
		case k == 13: // surrogate pair
			c := x.Intn(0x100000)
			b = append(b, u16be([]uint16{0xD800 + uint16(c>>10), 0xDC00 + uint16(c&0x3ff)})...)
			x.feat("surrogates in names")
		case k == 14:
			b = append(b, u16be([]uint16{uint16(0x4E00 + x.Intn(0x5000))})...)
		default:
			c := x.Intn(0xD800)
			b = append(b, byte(c>>8), byte(c))
		}
	}
	return
}

func (x *g) name() []byte {
	type rec struct{ p, e, l, id int }
	var recs []rec
	seen := map[rec]bool{}
	n := x.Intn(14)
	fm := 0
	tags := 0
	if x.rare(15) {
		fm, tags = 1, x.Intn(4)
		x.feat("name format 1")
	}
	if x.p(5) {
		n = 0
		x.feat("empty name table")
	}
	if x.ex == exNames {
		n = []int{120, 250, 500, 1500, 5300}[x.Intn(5)] + x.Intn(20)
	}
	one := x.ex == exNames && x.p(40) // mostly in one language
	for i := 0; i < n; i++ {
		r := rec{id: x.Intn(26)}
		if x.ex == exNames && x.p(90) {
			r.id = 256 + x.Intn(32000)
		}
		if x.p(8) {
			r.id = 256 + x.Intn(3000)
		}
		switch x.Intn(8) {
		case 0:
			r.p, r.e = 0, []int{0, 3, 4}[x.Intn(3)]
			x.feat("name platform 0")
		case 1, 2, 3:
			r.p, r.e, r.l = 1, 0, x.Intn(3)
			x.feat("name platform 1")
			if x.p(20) {
				r.l = []int{x.Intn(151), 128 + x.Intn(23), 150}[x.Intn(3)]
				x.feat("name platform 1 in another language")
			}
		case 4:
			r.p, r.e, r.l = 3, 0, 0x409
		case 5:
			r.p, r.e, r.l = 3, 10, []int{0x409, 0x407}[x.Intn(2)]
			if x.rare(30) {
				r.e = 2 + x.Intn(4)
				x.feat("name in an East Asian encoding")
			} else {
				x.feat("name platform 3 encoding 10")
			}
			if x.rare(20) {
				r.p, r.e, r.l = []int{1, 2, 4, 240 + x.Intn(16)}[x.Intn(4)], x.Intn(3), x.Intn(3)
				x.feat("name of an uncommon platform or encoding")
			}
		default:
			r.p, r.e, r.l = 3, 1, []int{0x409, 0x407, 0x411, 0x40c}[x.Intn(4)]
			x.feat("name platform 3")
		}
		if one && x.p(95) {
			r.p, r.e, r.l = 3, 1, 0x409
		}
		if (r.p != 1 || x.rare(10)) && !x.o.Plain && fm == 1 && x.p(40) {
			r.l = 0x8000 + x.Intn(tags+1)
			x.feat("name language from a tag")
		} else if r.p != 1 && x.rare(1) {
			r.l = 0x8000 + x.Intn(4)
			x.feat("name language without its tag")
		}
		if !seen[r] {
			seen[r] = true
			recs = append(recs, r)
		}
	}
	sort.Slice(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		if a.p != b.p {
			return a.p < b.p
		}
		if a.e != b.e {
			return a.e < b.e
		}
		if a.l != b.l {
			return a.l < b.l
		}
		return a.id < b.id
	})
	// What follows is drawn from a source of its own.
	alt := rand.New(rand.NewSource(int64(len(recs))<<32 + int64(x.Intn(1<<30))))
	if !x.o.Plain && alt.Intn(9) == 0 && len(recs) > 1 {
		alt.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
		x.feat("name records in no order")
	}
	edges := func(b []byte, wide bool) []byte { // white space, marks and zeros at the ends of a text
		if x.o.Plain || len(b) == 0 || alt.Intn(10) > 0 {
			return b
		}
		x.feat("unusual ends of names")
		c := []uint16{0xFEFF, 0xFFFE, 0, ' ', '\n', 0xA0, 0x3000, 0x200B, 'A', 0xEF, 0xBB}[alt.Intn(11)]
		e := []byte{byte(c >> 8), byte(c)}
		if !wide {
			e = e[1:]
		}
		if alt.Intn(2) == 0 {
			return append(append([]byte(nil), e...), b...)
		}
		return append(append([]byte(nil), b...), e...)
	}
	var store []byte
	type span struct{ off, l int }
	var spans []span
	huge := !x.o.Small && x.rare(1) || x.ex == exNames && x.p(40)
	place := func(even bool, mk func() []byte) span {
		// reuse an existing string, or a part of one
		if len(spans) > 0 && x.p(25) {
			s := spans[x.Intn(len(spans))]
			if x.p(40) && s.l > 4 {
				k := 2 * x.Intn(s.l/2)
				s.off, s.l = s.off+k, s.l-k
			}
			if !even || s.l%2 == 0 {
				x.feat("names share storage")
				return s
			}
		}
		d := mk()
		if len(store) > 65000 || len(store)+len(d) > 60000 && !huge {
			d = nil
		} else if len(store)+len(d) > 65535 {
			x.feat("name string that ends beyond 64 KB")
		}
		if x.rare(10) && len(store) < 65000 {
			store = append(store, x.bytes(1+x.Intn(5))...)
			x.feat("gaps in name storage")
		}
		s := span{len(store), len(d)}
		store = append(store, d...)
		spans = append(spans, s)
		return s
	}
	var hdr []byte
	u16 := func(v int) { hdr = append(hdr, byte(v>>8), byte(v)) }
	end := 6 + 12*len(recs)
	if fm == 1 {
		end += 2 + 4*tags
	}
	if x.rare(10) {
		end += 1 + x.Intn(6)
		x.feat("gap before name storage")
	}
	u16(fm)
	u16(len(recs))
	u16(end)
	for _, r := range recs {
		s := place(r.p != 1, func() []byte {
			l := x.Intn(24)
			if x.p(8) {
				l = 0
			}
			if huge {
				l = 3000 + x.Intn(9000)
			}
			if r.p == 1 {
				return edges(x.bytes(l), false)
			}
			return edges(x.text16(l), true)
		})
		for _, v := range []int{r.p, r.e, r.l, r.id, s.l, s.off} {
			u16(v)
		}
	}
	if fm == 1 {
		u16(tags)
		for i := 0; i < tags; i++ {
			s := place(true, func() []byte { return x.text16(2 + x.Intn(5)) })
			u16(s.l)
			u16(s.off)
		}
	}
	for len(hdr) < end {
		hdr = append(hdr, 0)
	}
	return append(hdr, store...)
}

// Dense is a font in which long runs of consecutive codes map to glyphs in no order, by a single range offset
// segment, as fonts for East Asian scripts do: cut down, the map needs more segments than its length field allows
// unless glyph ids are listed.
func Dense(r *rand.Rand) *F {
	f := Font(r, Opt{N: 300 + r.Intn(3000), Plain: true, NeedCmap: true})
	n := 8000 + r.Intn(17000)
	type run struct{ c1, c2 int }
	var runs []run
	c := 0x20 + r.Intn(0x4000)
	for left := n; left > 0; {
		k := 1 + r.Intn(left)
		if k < 500 {
			k = left
		}
		if c+k > 0xFF00 {
			break
		}
		runs = append(runs, run{c, c + k - 1})
		left -= k
		c += k + 1 + r.Intn(50)
	}
	s := len(runs) + 1
	var arr, ro []int
	for i, q := range runs {
		ro = append(ro, 2*(s-i)+2*len(arr))
		for c := q.c1; c <= q.c2; c++ {
			arr = append(arr, r.Intn(f.N))
		}
	}
	ro = append(ro, 0)
	es := 0
	for 1<<(es+1) <= s {
		es++
	}
	b := hdr(4, 16+8*s+2*len(arr), 0, 2*s, 2<<es, es, 2*s-2<<es)
	for _, q := range runs {
		b = append(b, hdr(q.c2)...)
	}
	b = append(b, hdr(0xFFFF, 0)...)
	for _, q := range runs {
		b = append(b, hdr(q.c1)...)
	}
	b = append(b, hdr(0xFFFF)...)
	b = append(b, hdr(make([]int, s-1)...)...)
	b = append(b, hdr(1)...)
	b = append(b, hdr(ro...)...)
	b = append(b, hdr(arr...)...)
	cmap := append(hdr(0, 1, 3, 1, 0, 12), b...)
	for i, t := range f.Tables {
		if t.Tag == "cmap" {
			f.Tables[i].Data = cmap
		}
	}
	f.Bytes = Assemble(0x00010000, f.Tables, nil, true)
	f.Features = map[string]bool{"dense character map": true}
	return f
}

// Overfull is a font whose format 4 map has its segments share one long list of glyphs in no order, and so maps more
// characters than such a map has room for when they are listed one by one.
func Overfull(r *rand.Rand) *F {
	f := Font(r, Opt{N: 300 + r.Intn(300), Plain: true, NeedCmap: true})
	k := 4000 + r.Intn(4000)
	segs := 33000/k + 1 + r.Intn(2)
	s := segs + 1
	var ro []int
	var arr []int
	for i := 0; i < k; i++ {
		arr = append(arr, r.Intn(f.N))
	}
	var c1, c2 []int
	for i := 0; i < segs; i++ {
		ro = append(ro, 2*(s-i))
		c1, c2 = append(c1, 0x20+i*(k+1)), append(c2, 0x20+i*(k+1)+k-1)
	}
	ro, c1, c2 = append(ro, 0), append(c1, 0xFFFF), append(c2, 0xFFFF)
	es := 0
	for 1<<(es+1) <= s {
		es++
	}
	b := hdr(4, 16+8*s+2*len(arr), 0, 2*s, 2<<es, es, 2*s-2<<es)
	b = append(b, hdr(c2...)...)
	b = append(b, hdr(0)...)
	b = append(b, hdr(c1...)...)
	b = append(b, hdr(make([]int, s-1)...)...)
	b = append(b, hdr(1)...)
	b = append(b, hdr(ro...)...)
	b = append(b, hdr(arr...)...)
	cmap := append(hdr(0, 1, 3, 1, 0, 12), b...)
	for i, t := range f.Tables {
		if t.Tag == "cmap" {
			f.Tables[i].Data = cmap
		}
	}
	f.Bytes = Assemble(0x00010000, f.Tables, nil, true)
	f.Features = map[string]bool{"overfull character map": true}
	return f
}
