package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

var be = binary.BigEndian

func init() {
	reg(&mon.Prop{ID: "P02", Level: "fault_enumeration", Quick: 800, Thorough: 4000, Run: p02,
		Rule: "every case takes an intact font (generated, written by the library, or a real one) and corrupts copies of it: every single byte of small fonts, single bits, words, transpositions, changes compensated within a table, across tables, by fixing only the table's checksum or only the file's, directory fields, truncation, trailing bytes; non-trivial: a distinct corrupted file whose checksums the reference computation finds wrong, which validation must refuse"})
	reg(&mon.Prop{ID: "P03", Level: "exploration", Quick: 16000, Thorough: 80000, Run: p03,
		Rule: ruleFonts + ", as they are, written by the library, re-assembled in other table orders, with altered content under correct checksums; non-trivial: a distinct file that parses and whose checksums the reference computation finds right, validated from memory and from a file"})
}

// base is an intact font of some kind.
func base(c *mon.C, small bool) (*fc, []byte) {
	var x *fc
	if !small && c.Intn(5) == 0 {
		rs := reals()
		r := rs[c.Intn(len(rs))]
		if sfnt.ChecksumsOK(r.b) == nil {
			x = &fc{r.name, r.b, r.sem, nil}
		}
	}
	if x == nil {
		o := gen.Opt{MaxN: 40, NoRelaxed: c.Intn(2) == 0}
		if small {
			o = gen.Opt{MaxN: 8, Small: true}
		}
		x = generated(c, o)
	}
	b := x.b
	if c.Intn(3) == 0 {
		f := mustParse(c, b, x.features())
		if f == nil {
			return nil, nil
		}
		if b = mustWrite(c, f, x.features()); b == nil {
			return nil, nil
		}
		c.Count("bases written by the library", 1)
	}
	return x, b
}

func dupHead(b []byte) bool {
	d, err := sfnt.ReadDir(b)
	if err != nil {
		return false
	}
	n := 0
	for _, r := range d.Recs {
		if trimTag(r.RawTag) == "head" {
			n++
		}
	}
	return n != 1
}

func trimTag(s string) string { return string(bytes.TrimSpace([]byte(s))) }

// refuse judges one corrupted file.
func refuse(c *mon.C, orig, b []byte, x *fc, file bool, how string, a ...interface{}) bool {
	if bytes.Equal(orig, b) {
		return true
	}
	var err error
	if file {
		p := filepath.Join(c.Scratch(), "p02.ttf")
		if e := os.WriteFile(p, b, 0o644); e != nil {
			panic(e)
		}
		err = unitype.ValidateFile(p)
		c.Count("corrupted files validated on disk", 1)
	} else {
		err = unitype.ValidateBytes(b)
	}
	if err != nil {
		c.Count("corruptions refused", 1)
		c.EvalBytes(b)
		return true
	}
	if dupHead(b) {
		c.Count("not judged: no single head table", 1)
		return true
	}
	if e := sfnt.ChecksumsOK(b); e != nil {
		c.Blob("corrupted", b)
		c.Fail("corruption accepted", "validation accepts a corrupted font (%s): %v; base %s", fmt.Sprintf(how, a...), e, x.features())
		return false
	}
	c.Count("corruptions no checksum can show, accepted", 1)
	c.Eval("")
	return true
}

func p02(c *mon.C, i int) {
	small := i%2 == 0
	x, b := base(c, small)
	if b == nil {
		return
	}
	if err := unitype.ValidateBytes(append([]byte(nil), b...)); err != nil {
		c.Fail("intact font refused", "ValidateBytes: %v; %s", err, x.features())
		return
	}
	m := make([]byte, len(b))
	try := func(how string, a ...interface{}) bool {
		return refuse(c, b, append([]byte(nil), m...), x, c.Intn(64) == 0, how, a...)
	}
	reset := func() { copy(m, b) }
	d, err := sfnt.ReadDir(b)
	if err != nil {
		panic(err)
	}
	if small && len(b) < 4000 {
		for p := range b {
			reset()
			m[p] ^= byte(1 + c.Intn(255))
			if !try("byte %d", p) {
				return
			}
			if c.Intn(4) == 0 {
				reset()
				m[p] ^= 1 << uint(c.Intn(8))
				if !try("bit in byte %d", p) {
					return
				}
			}
		}
		c.Count("fonts with every byte corrupted", 1)
		for k := 0; k < len(b); k += 1 + c.Intn(7) {
			if !refuse(c, b, append([]byte(nil), b[:k]...), x, false, "cut to %d", k) {
				return
			}
		}
		c.Count("fonts truncated throughout", 1)
	}
	spanOf := func(r sfnt.Rec) (int, int) { return int(r.Off), int(r.Len) }
	word := func(p int) uint32 { return be.Uint32(m[p:]) }
	for k := 0; k < 60; k++ {
		reset()
		r := d.Recs[c.Intn(len(d.Recs))]
		r2 := d.Recs[c.Intn(len(d.Recs))]
		o, n := spanOf(r)
		o2, n2 := spanOf(r2)
		delta := uint32(1+c.Intn(255)) << uint(8*c.Intn(4))
		fixRec := func() { // make the record's checksum fit the table
			t := append([]byte(nil), m[o:o+n]...)
			if r.Tag == "head" && n >= 12 {
				copy(t[8:], []byte{0, 0, 0, 0})
			}
			for j := range d.Recs {
				if d.Recs[j] == r {
					be.PutUint32(m[12+16*j+4:], sfnt.Sum(t))
				}
			}
		}
		fixAdj := func() {
			h := d.Find("head")
			be.PutUint32(m[h.Off+8:], 0)
			be.PutUint32(m[h.Off+8:], 0xB1B0AFBA-sfnt.Sum(m))
		}
		how := ""
		odd := func(v, sum uint32) uint32 { // what a careless tool might have put there
			return []uint32{0, ^uint32(0), ^v, -v, bits.ReverseBytes32(v), v & 0xFFFF, v << 16, sum, 0xB1B0AFBA - sum, 0xB1B0AFBA, 1}[c.Intn(11)]
		}
		switch c.Intn(20) {
		case 0: // compensated across tables: the file's checksum still fits
			if n < 4 || n2 < 4 || r == r2 || o%4 != o2%4 {
				continue
			}
			p, q := o+4*c.Intn(n/4), o2+4*c.Intn(n2/4)
			be.PutUint32(m[p:], word(p)+delta)
			be.PutUint32(m[q:], word(q)-delta)
			how = fmt.Sprintf("words of %q and %q changed by opposite amounts", r.Tag, r2.Tag)
		case 1: // table and its record: the file's checksum does not fit
			if n < 1 {
				continue
			}
			m[o+c.Intn(n)] ^= byte(1 + c.Intn(255))
			fixRec()
			how = fmt.Sprintf("%q changed with its checksum", r.Tag)
		case 2, 3: // table and file adjustment: the table's checksum does not fit
			if n < 1 {
				continue
			}
			m[o+c.Intn(n)] ^= byte(1 + c.Intn(255))
			fixAdj()
			how = fmt.Sprintf("%q changed with the file adjustment", r.Tag)
		case 4: // last byte of a table, with the file adjustment
			if n < 1 {
				continue
			}
			m[o+n-1] ^= byte(1 + c.Intn(255))
			fixAdj()
			how = fmt.Sprintf("last byte of %q changed with the file adjustment", r.Tag)
		case 5: // two tables change places in the directory
			for j := range d.Recs {
				for l := range d.Recs {
					if d.Recs[j] == r && d.Recs[l] == r2 {
						var t [8]byte
						copy(t[:], m[12+16*j+8:])
						copy(m[12+16*j+8:12+16*j+16], m[12+16*l+8:12+16*l+16])
						copy(m[12+16*l+8:], t[:])
					}
				}
			}
			how = fmt.Sprintf("%q and %q exchanged", r.Tag, r2.Tag)
		case 6: // words transposed within a table: no checksum can tell, unless they are unaligned
			if n < 8 {
				continue
			}
			p, q := o+2*c.Intn(n/2-1), o+2*c.Intn(n/2-1)
			u, v := be.Uint16(m[p:]), be.Uint16(m[q:])
			be.PutUint16(m[p:], v)
			be.PutUint16(m[q:], u)
			how = fmt.Sprintf("half words of %q transposed", r.Tag)
		case 7: // record checksum and adjustment: only the record's checksum is wrong
			j := c.Intn(len(d.Recs))
			be.PutUint32(m[12+16*j+4:], be.Uint32(m[12+16*j+4:])+delta)
			fixAdj()
			how = fmt.Sprintf("checksum of %q in the directory changed with the file adjustment", d.Recs[j].Tag)
		case 8: // length, with the adjustment
			j := c.Intn(len(d.Recs))
			be.PutUint32(m[12+16*j+12:], be.Uint32(m[12+16*j+12:])+uint32(c.Intn(9))-4)
			fixAdj()
			how = fmt.Sprintf("length of %q in the directory changed with the file adjustment", d.Recs[j].Tag)
		case 9: // offset, with the adjustment
			j := c.Intn(len(d.Recs))
			be.PutUint32(m[12+16*j+8:], be.Uint32(m[12+16*j+8:])+uint32(4*(c.Intn(5)-2)))
			fixAdj()
			how = fmt.Sprintf("offset of %q in the directory changed with the file adjustment", d.Recs[j].Tag)
		case 10:
			t := append(append([]byte(nil), b...), byte(1+c.Intn(255)))
			if !refuse(c, b, t, x, c.Intn(4) == 0, "a byte appended") {
				return
			}
			continue
		case 11:
			h := d.Find("head")
			be.PutUint32(m[h.Off+8:], be.Uint32(m[h.Off+8:])+delta)
			how = "checksumAdjustment changed"
		case 12: // a run
			if n < 1 {
				continue
			}
			p := o + c.Intn(n)
			for q := p; q < o+n && q < p+64; q++ {
				m[q] = 0
			}
			how = fmt.Sprintf("part of %q zeroed", r.Tag)
		case 13:
			if n < 4 {
				continue
			}
			p := o + 4*c.Intn(n/4)
			be.PutUint32(m[p:], word(p)+delta)
			how = fmt.Sprintf("word of %q changed", r.Tag)
		case 14:
			p := c.Intn(len(m))
			m[p] ^= 1 << uint(c.Intn(8))
			how = fmt.Sprintf("bit in byte %d", p)
		case 16:
			j := c.Intn(len(d.Recs))
			v := be.Uint32(m[12+16*j+4:])
			be.PutUint32(m[12+16*j+4:], odd(v, v))
			if c.Intn(3) > 0 {
				fixAdj()
			}
			how = fmt.Sprintf("checksum of %q in the directory became %#x, was %#x", d.Recs[j].Tag, be.Uint32(m[12+16*j+4:]), v)
		case 17:
			h := d.Find("head")
			v := be.Uint32(m[h.Off+8:])
			be.PutUint32(m[h.Off+8:], 0)
			v2 := odd(v, sfnt.Sum(m))
			be.PutUint32(m[h.Off+8:], v2)
			how = fmt.Sprintf("checksumAdjustment became %#x, was %#x", v2, v)
		case 18, 19: // a second table of a name, and one of the two damaged
			j, l := c.Intn(len(d.Recs)), c.Intn(len(d.Recs))
			if d.Recs[j].Tag == "head" || d.Recs[l].Tag == "head" || j == l || c.Intn(2) == 0 && supportedTag(d.Recs[j].Tag) {
				continue
			}
			copy(m[12+16*j:12+16*j+4], m[12+16*l:])
			if c.Intn(2) == 0 {
				j = l
			}
			if q := d.Recs[j]; q.Len > 0 && c.Intn(2) == 0 {
				m[int(q.Off)+c.Intn(int(q.Len))] ^= byte(1 + c.Intn(255))
			} else {
				be.PutUint32(m[12+16*j+4:], be.Uint32(m[12+16*j+4:])+delta)
			}
			fixAdj()
			how = fmt.Sprintf("%q made a second %q, and one damaged", d.Recs[j].Tag, d.Recs[l].Tag)
		case 15:
			k := c.Intn(len(b))
			if !refuse(c, b, append([]byte(nil), b[:k]...), x, c.Intn(8) == 0, "cut to %d of %d", k, len(b)) {
				return
			}
			continue
		}
		if r.Tag == "" || !sfntTag(d, "head") {
			continue
		}
		if !try("%s", how) {
			return
		}
		if !supportedTag(r.Tag) {
			c.Count("corruptions of tables the library does not model", 1)
		}
	}
	c.Sample(fmt.Sprintf("corruptions of %s", x.features()))
}

func supportedTag(t string) bool { return sfnt.SupportedTags[t] }

func sfntTag(d *sfnt.Dir, tag string) bool { return d.Find(tag) != nil }

// accept judges one intact file.
func accept(c *mon.C, b []byte, what string) bool {
	in := append([]byte(nil), b...)
	var err error
	if !sealed(c, b, func() string { return "ValidateBytes, " + what }, func(b []byte) { err = unitype.ValidateBytes(b) }) {
		return false
	}
	if err == nil {
		err = unitype.ValidateBytes(in)
	}
	if err != nil {
		c.Blob("intact", b)
		c.Fail("intact font refused", "%s: ValidateBytes: %v", what, err)
		return false
	}
	if !bytes.Equal(in, b) {
		c.Fail("validation changes its input", "%s: %s", what, diffBytes(in, b))
		return false
	}
	c.EvalBytes(b)
	return true
}

func p03(c *mon.C, i int) {
	x := pick(c, i, gen.Opt{Huge: c.Thorough, MaxN: 3000})
	if sfnt.ChecksumsOK(x.b) == nil {
		if !accept(c, x.b, x.features()) {
			return
		}
	}
	f := mustParse(c, x.b, x.features())
	if f == nil {
		return
	}
	b := mustWrite(c, f, x.features())
	if b == nil {
		return
	}
	if sfnt.ChecksumsOK(b) == nil && !accept(c, b, "written "+x.features()) {
		return
	}
	// Content altered, checksums right: if it parses, it is intact as far as validation promises.
	for k := 0; k < 6; k++ {
		m, how := gen.Mutate(c.Rand, x.b, nil)
		gen.FixSums(m)
		if dupHead(m) || sfnt.ChecksumsOK(m) != nil {
			continue
		}
		if _, err := parse(m); err != nil {
			continue
		}
		if !accept(c, m, fmt.Sprintf("%v then checksums fixed, on %s", how, x.features())) {
			return
		}
		c.Count("altered fonts with right checksums", 1)
	}
	if c.Intn(4) == 0 {
		p := filepath.Join(c.Scratch(), "p03.ttf")
		for k, in := range [][]byte{x.b, b} {
			if sfnt.ChecksumsOK(in) != nil {
				continue
			}
			if err := os.WriteFile(p, in, 0o644); err != nil {
				panic(err)
			}
			if err := unitype.ValidateFile(p); err != nil {
				c.Fail("intact file refused", "ValidateFile: %v (%s, written: %v)", err, x.features(), k == 1)
				return
			}
			if got, _ := os.ReadFile(p); !bytes.Equal(got, in) {
				c.Fail("validation changes the file", "%s", diffBytes(got, in))
				return
			}
			c.Count("files validated", 1)
		}
	}
	c.Sample(x.features())
}
