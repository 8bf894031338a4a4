package gen

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/unidoc/unitype/verifmon/sfnt"
)

var interesting = []uint32{0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 32, 0x7E, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x102, 0x103, 0x104, 0x7FFF, 0x8000,
	0x8001, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x7FFFFFF0, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFF8, 0xFFFFFFFE, 0xFFFFFFFF}

// Mutate damages a copy of b in 1 to 6 ways and says how. The directory and the fields that steer parsing get
// more than their share. Afterwards checksums are put right again in half of the cases, so that validation gets
// as far as it can.
func Mutate(r *rand.Rand, b []byte, other []byte) ([]byte, []string) {
	b = append([]byte(nil), b...)
	var how []string
	say := func(f string, a ...interface{}) { how = append(how, fmt.Sprintf(f, a...)) }
	for k := 1 + r.Intn(6)*r.Intn(2); k > 0; k-- {
		b = mutate1(r, b, other, say)
	}
	if r.Intn(2) == 0 {
		FixSums(b)
		say("checksums fixed")
	}
	return b, how
}

func val(r *rand.Rand, old uint32, bits int, n int) uint32 {
	switch r.Intn(6) {
	case 0:
		return old + uint32(r.Intn(9)) - 4
	case 1:
		return old ^ 1<<uint(r.Intn(bits))
	case 2:
		return r.Uint32()
	case 3:
		return uint32(r.Intn(n + 1))
	}
	return interesting[r.Intn(len(interesting))]
}

func mutate1(r *rand.Rand, b, other []byte, say func(string, ...interface{})) []byte {
	if len(b) < 12 {
		return append(b, byte(r.Intn(256)))
	}
	d, err := sfnt.ReadDir(b)
	if err != nil || len(d.Recs) == 0 {
		p := r.Intn(len(b))
		b[p] = byte(r.Intn(256))
		say("byte %d", p)
		return b
	}
	put16 := func(p int, v uint16) {
		if p >= 0 && p+2 <= len(b) {
			be.PutUint16(b[p:], v)
		}
	}
	put32 := func(p int, v uint32) {
		if p >= 0 && p+4 <= len(b) {
			be.PutUint32(b[p:], v)
		}
	}
	get16 := func(p int) uint16 {
		if p >= 0 && p+2 <= len(b) {
			return be.Uint16(b[p:])
		}
		return 0
	}
	get32 := func(p int) uint32 {
		if p >= 0 && p+4 <= len(b) {
			return be.Uint32(b[p:])
		}
		return 0
	}
	span := func(tag string) (int, int) {
		rc := d.Find(tag)
		if rc == nil || uint64(rc.Off) > uint64(len(b)) {
			return -1, 0
		}
		hi := uint64(rc.Off) + uint64(rc.Len)
		if hi > uint64(len(b)) {
			hi = uint64(len(b))
		}
		return int(rc.Off), int(hi) - int(rc.Off)
	}
	switch r.Intn(20) {
	case 0:
		p := r.Intn(len(b))
		b[p] ^= 1 << uint(r.Intn(8))
		say("bit flip at %d", p)
	case 1:
		p := r.Intn(len(b))
		b[p] = byte(r.Intn(256))
		say("byte at %d", p)
	case 2:
		p := r.Intn(len(b))
		for i := 0; i < 1+r.Intn(16) && p+i < len(b); i++ {
			b[p+i] = byte(r.Intn(256))
		}
		say("bytes at %d", p)
	case 3:
		n := r.Intn(len(b))
		say("cut to %d", n)
		return b[:n]
	case 4: // table offset or length in the directory
		i := r.Intn(len(d.Recs))
		p := 12 + 16*i + 8 + 4*r.Intn(2)
		put32(p, val(r, get32(p), 32, len(b)))
		say("directory field of %q = %#x", d.Recs[i].Tag, get32(p))
	case 5: // tags
		i := r.Intn(len(d.Recs))
		switch r.Intn(3) {
		case 0:
			copy(b[12+16*i:], "DROP")
			say("table %q dropped", d.Recs[i].Tag)
		case 1:
			j := r.Intn(len(d.Recs))
			copy(b[12+16*i:12+16*i+4], b[12+16*j:12+16*j+4])
			say("tag %q becomes %q", d.Recs[i].Tag, d.Recs[j].Tag)
		case 2:
			tags := []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "prep", "cvt ", "fpgm", "name", "OS/2", "post", "cmap"}
			t := tags[r.Intn(len(tags))]
			copy(b[12+16*i:12+16*i+4], t)
			say("tag %q becomes %q", d.Recs[i].Tag, t)
		}
	case 6: // swap two tables' data
		i, j := r.Intn(len(d.Recs)), r.Intn(len(d.Recs))
		a, c := b[12+16*i+4:12+16*i+16], b[12+16*j+4:12+16*j+16]
		for k := range a {
			a[k], c[k] = c[k], a[k]
		}
		say("%q and %q swapped", d.Recs[i].Tag, d.Recs[j].Tag)
	case 7:
		put16(4, uint16(val(r, uint32(get16(4)), 16, len(d.Recs)+3)))
		say("numTables %d", get16(4))
	case 8: // numGlyphs
		if o, n := span("maxp"); o >= 0 && n >= 6 {
			put16(o+4, uint16(val(r, uint32(get16(o+4)), 16, 300)))
			say("numGlyphs %d", get16(o+4))
		}
	case 9: // numberOfHMetrics, indexToLocFormat
		if r.Intn(2) == 0 {
			if o, n := span("hhea"); o >= 0 && n >= 36 {
				put16(o+34, uint16(val(r, uint32(get16(o+34)), 16, 300)))
				say("numberOfHMetrics %d", get16(o+34))
			}
		} else if o, n := span("head"); o >= 0 && n >= 54 {
			put16(o+50, uint16(val(r, uint32(get16(o+50)), 16, 3)))
			say("indexToLocFormat %d", get16(o+50))
		}
	case 10: // loca entry
		if o, n := span("loca"); o >= 0 && n >= 4 {
			_, gl := span("glyf")
			if r.Intn(2) == 0 {
				p := o + 2*r.Intn(n/2)
				put16(p, uint16(val(r, uint32(get16(p)), 16, gl/2)))
			} else {
				p := o + 4*r.Intn(n/4)
				put32(p, val(r, get32(p), 32, gl))
			}
			say("loca entry")
		}
	case 11, 12: // cmap: record offset, or a field of a subtable
		if o, n := span("cmap"); o >= 0 && n >= 12 {
			k := int(get16(o + 2))
			if k == 0 || k > 64 {
				break
			}
			i := r.Intn(k)
			ro := o + 4 + 8*i
			switch r.Intn(5) {
			case 0:
				put32(ro+4, val(r, get32(ro+4), 32, n))
				say("cmap record %d offset %#x", i, get32(ro+4))
			case 1:
				put16(ro+2*r.Intn(2), uint16(r.Intn(12)))
				say("cmap record %d platform or encoding", i)
			default:
				s := o + int(get32(ro+4))
				if s+2 > len(b) {
					break
				}
				if r.Intn(8) == 0 {
					put16(s, []uint16{0, 2, 4, 6, 8, 10, 12, 13, 14}[r.Intn(9)])
					say("cmap subtable %d format %d", i, get16(s))
					break
				}
				if s+16 <= len(b) && get16(s) == 4 && r.Intn(3) == 0 {
					// a segment's start, end, delta or range offset
					sc := int(get16(s+6)) / 2
					if sc == 0 || s+16+8*sc > len(b) {
						break
					}
					k, a := r.Intn(sc), r.Intn(6)
					p := s + 14 + 2*k
					if a > 0 {
						p += 2 + 2*sc*min(a, 3)
					}
					if a >= 3 {
						// near what points to the start or end of the glyph array, or before it
						put16(p, uint16(2*(sc-k)+2*[]int{0, -1, 1, -sc, -r.Intn(sc + 1), r.Intn(n), (n - 16 - 8*sc) / 2}[r.Intn(7)]+[]int{0, 0, 0, 1}[r.Intn(4)]))
					} else {
						put16(p, uint16(val(r, uint32(get16(p)), 16, n)))
					}
					say("cmap subtable %d segment %d of %d: array %d becomes %#x", i, k, sc, a, get16(p))
					break
				}
				room := 64
				if r.Intn(2) == 0 {
					room = n
				}
				p := s + 2 + 2*r.Intn(room/2)
				if r.Intn(3) == 0 {
					put32(p, val(r, get32(p), 32, n))
				} else {
					put16(p, uint16(val(r, uint32(get16(p)), 16, n)))
				}
				say("cmap subtable %d (format %d) field at +%d", i, get16(s), p-s)
			}
		}
	case 13: // name
		if o, n := span("name"); o >= 0 && n >= 6 {
			p := o + 2*r.Intn(3)
			if n >= 18 && r.Intn(3) > 0 {
				p = o + 6 + 2*r.Intn((n-6)/2)
			}
			put16(p, uint16(val(r, uint32(get16(p)), 16, n)))
			say("name field at +%d", p-o)
		}
	case 14: // post
		if o, n := span("post"); o >= 0 && n >= 32 {
			switch r.Intn(4) {
			case 0:
				put32(o, []uint32{0x10000, 0x20000, 0x25000, 0x30000, 0x40000, 0x28000}[r.Intn(6)])
				say("post version %#x", get32(o))
			case 1:
				put16(o+32, uint16(val(r, uint32(get16(o+32)), 16, 300)))
				say("post numGlyphs %d", get16(o+32))
			default:
				if n > 36 {
					p := o + 32 + r.Intn(n-34)
					put16(p, uint16(val(r, uint32(get16(p)), 16, 300)))
					say("post data at +%d", p-o)
				}
			}
		}
	case 15, 16: // glyph: composite records
		if o, n := span("glyf"); o >= 0 && n >= 12 {
			lo, ln := span("loca")
			hd, _ := span("head")
			if lo < 0 || hd < 0 || ln < 8 {
				break
			}
			var at int
			if get16(hd+50) == 0 {
				at = o + 2*int(get16(lo+2*r.Intn(ln/2)))
			} else {
				at = o + int(get32(lo+4*r.Intn(ln/4)))
			}
			if r.Intn(3) == 0 {
				put16(at, 0xFFFF)
				say("glyph at +%d made composite", at-o)
			} else {
				p := at + 10 + 2*r.Intn(12)
				put16(p, uint16(val(r, uint32(get16(p)), 16, 300)))
				say("glyph data at +%d", p-o)
			}
		}
	case 17: // splice a stretch of another font
		if len(other) > 8 {
			p, q := r.Intn(len(b)), r.Intn(len(other))
			n := copy(b[p:], other[q:min(len(other), q+1+r.Intn(200))])
			say("%d bytes of another font at %d", n, p)
		}
	case 18: // insert or remove bytes
		p := r.Intn(len(b))
		if r.Intn(2) == 0 {
			n := 1 + r.Intn(8)
			ins := make([]byte, n)
			b = append(b[:p:p], append(ins, b[p:]...)...)
			say("%d zero bytes inserted at %d", n, p)
		} else {
			n := min(1+r.Intn(8), len(b)-p)
			b = append(b[:p:p], b[p+n:]...)
			say("%d bytes removed at %d", n, p)
		}
	default: // a field near the start of any table
		rc := d.Recs[r.Intn(len(d.Recs))]
		o, n := span(rc.Tag)
		if o >= 0 && n >= 4 {
			p := o + 2*r.Intn(min(n, 40)/2)
			if r.Intn(2) == 0 {
				put32(p, val(r, get32(p), 32, n))
			} else {
				put16(p, uint16(val(r, uint32(get16(p)), 16, n)))
			}
			say("field of %q at +%d", rc.Tag, p-o)
		}
	}
	return b
}

// Inflate raises one 32-bit length, count or offset of the font to a huge value and says which. The rest of the
// font stays as it is.
func Inflate(r *rand.Rand, in []byte) (b []byte, how string) {
	b = append([]byte(nil), in...)
	defer func() {
		if recover() != nil { // the font is damaged already, and leads outside itself
			how = "inflated in part"
		}
	}()
	d, err := sfnt.ReadDir(b)
	if err != nil || len(d.Recs) == 0 {
		return b, ""
	}
	huge := []uint32{0x08000000, 0x0FFFFFFF, 0x10000000, 0x3FFFFFF0, 0x7FFFFFFF, 0x80000000, 0xC0000000, 0xFFFFFFF0, 0xFFFFFFFF}
	v := huge[r.Intn(len(huge))] - uint32(r.Intn(3))
	set := func(p int, what string, a ...interface{}) ([]byte, string) {
		if p >= 0 && p+4 <= len(b) {
			be.PutUint32(b[p:], v)
		}
		return b, fmt.Sprintf(what, a...) + fmt.Sprintf(" = %#x", v)
	}
	switch r.Intn(6) {
	case 0, 1: // a table length
		i := r.Intn(len(d.Recs))
		return set(12+16*i+12, "length of %q", d.Recs[i].Tag)
	case 2: // length of the last table in the file, as far as the file goes
		last := 0
		for i := range d.Recs {
			if d.Recs[i].Off > d.Recs[last].Off {
				last = i
			}
		}
		return set(12+16*last+12, "length of %q, last in the file,", d.Recs[last].Tag)
	case 3: // last loca entry (long format), with a table length to match
		if l, h := d.Find("loca"), d.Find("head"); l != nil && h != nil && be.Uint16(b[h.Off+50:]) == 1 && l.Len >= 8 {
			gl := d.Find("glyf")
			mx := d.Find("maxp")
			if gl != nil && mx != nil {
				for i := range d.Recs {
					if d.Recs[i].Tag == "glyf" {
						be.PutUint32(b[12+16*i+12:], v)
					}
				}
				n := int(be.Uint16(b[mx.Off+4:]))
				k := n
				if n > 1 && r.Intn(2) == 0 {
					k = 1 + r.Intn(n) // and all that follow
				}
				for j := k; j <= n; j++ {
					p := int(l.Off) + 4*j
					if p+4 <= len(b) {
						be.PutUint32(b[p:], v)
					}
				}
				return b, fmt.Sprintf("loca entries from %d and glyf length = %#x", k, v)
			}
		}
	case 4: // format 12 group count
		if c := d.Find("cmap"); c != nil {
			k := int(be.Uint16(b[c.Off+2:]))
			for i := 0; i < k; i++ {
				s := int(c.Off) + int(be.Uint32(b[int(c.Off)+4+8*i+4:]))
				if s+16 <= len(b) && be.Uint16(b[s:]) == 12 {
					be.PutUint32(b[s+4:], v)
					return set(s+12, "number of groups of character map %d", i)
				}
			}
		}
	case 5: // format 12 group end
		if c := d.Find("cmap"); c != nil {
			k := int(be.Uint16(b[c.Off+2:]))
			for i := 0; i < k; i++ {
				s := int(c.Off) + int(be.Uint32(b[int(c.Off)+4+8*i+4:]))
				if s+28 <= len(b) && be.Uint16(b[s:]) == 12 {
					return set(s+20, "end of the first group of character map %d", i)
				}
			}
		}
	}
	i := r.Intn(len(d.Recs))
	return set(12+16*i+8, "offset of %q", d.Recs[i].Tag)
}

// SharedNames is a font whose many name records refer to the same long strings, or parts of them.
func SharedNames(r *rand.Rand) []byte {
	f := Font(r, Opt{MaxN: 30, Plain: true, NeedName: true})
	k := 1000 + r.Intn(4000)
	l := 40000 + r.Intn(20000)
	nm := hdr(0, k, 6+12*k)
	for i := 0; i < k; i++ {
		c := 2 * r.Intn(200)
		nm = append(nm, hdr(3, 1, 0x409+i>>15, i&0x7FFF, l-c, r.Intn(c+1)&^1)...)
	}
	f.put("name", append(nm, bytes.Repeat([]byte{0x4E, byte(r.Intn(256))}, l/2+1)...))
	return f.Bytes
}

// SharedCmap is a font whose many character map records refer to one large subtable.
func SharedCmap(r *rand.Rand) []byte {
	f := Font(r, Opt{MaxN: 30, Plain: true, NeedCmap: true})
	k := 300 + r.Intn(50)
	n := 20000 + r.Intn(10000)
	cm := hdr(0, k)
	for i := 0; i < k; i++ {
		cm = append(cm, hdr(3, 11+i, 0, 4+8*k)...)
	}
	cm = append(cm, hdr(6, 10+2*n, 0, 0x100, n)...)
	for i := 0; i < n; i++ {
		cm = append(cm, hdr(r.Intn(f.N))...)
	}
	f.put("cmap", cm)
	return f.Bytes
}

// put replaces a table.
func (f *F) put(tag string, data []byte) {
	for i, t := range f.Tables {
		if t.Tag == tag {
			f.Tables[i].Data = data
		}
	}
	f.Bytes = Assemble(0x00010000, f.Tables, nil, true)
}

// AllCharacters makes a well-formed font whose full Unicode character maps map most code points.
func AllCharacters(r *rand.Rand) *F {
	n := []int{100, 300, 1000, 4000, 20000, 65535}[r.Intn(6)]
	f := Font(r, Opt{N: n, Plain: true, NeedCmap: true})
	groups := []byte{}
	k := 0
	for c := 0x20 + r.Intn(100); c+n <= 0x110000; c += n {
		if c < 0xE000 && c+n > 0xD800 { // no surrogates
			c = 0xE000
		}
		groups = append(groups, hdr(c>>16, c, (c+n-1)>>16, c+n-1, 0, 0)...)
		k++
	}
	cm := hdr(0, 1, 3, 10, 0, 12)
	cm = append(cm, hdr(12, 0, (16+12*k)>>16, 16+12*k, 0, 0, k>>16, k)...)
	f.put("cmap", append(cm, groups...))
	return f
}

// OverlappingSegments is a font with a format 4 character map of many segments for the same characters.
func OverlappingSegments(r *rand.Rand) []byte {
	f := Font(r, Opt{N: 2 + r.Intn(29), Plain: true, NeedCmap: true})
	k := 1000 + r.Intn(3000)
	n := 8000 + r.Intn(8000)
	end, start, offset := []int{}, []int{}, []int{}
	for i := 0; i < k; i++ {
		s, e := r.Intn(20), n-1-r.Intn(20)
		start, end, offset = append(start, s), append(end, e), append(offset, 2*(k+1-i+s))
	}
	cm := hdr(0, 1, 3, 1, 0, 12, 4, 16+8*(k+1)+2*n, 0, 2*(k+1), 0, 0, 0)
	cm = append(append(append(cm, hdr(end...)...), hdr(0xFFFF, 0)...), hdr(start...)...)
	cm = append(append(cm, hdr(0xFFFF)...), make([]byte, 2*k+2)...)
	cm = append(append(cm, hdr(offset...)...), 0, 0)
	for i := 0; i < n; i++ {
		cm = append(cm, hdr(1+r.Intn(f.N-1))...)
	}
	f.put("cmap", cm)
	return f.Bytes
}

// OverlappingGroups is a font with a format 12 character map of many groups for the same characters, or for
// numbers which are no characters.
func OverlappingGroups(r *rand.Rand) []byte {
	f := Font(r, Opt{N: 1000 + r.Intn(1000), Plain: true, NeedCmap: true})
	k := 4000 + r.Intn(2000)
	beyond := r.Intn(2) == 0
	cm := append(hdr(0, 1, 3, 10, 0, 12), hdr(12, 0, (16+12*k)>>16, 16+12*k, 0, 0, k>>16, k)...)
	for i := 0; i < k; i++ {
		s, g := 0x4000+r.Intn(20), r.Intn(20)
		if beyond {
			s = 0x10F000 + i*f.N
		}
		e := s + f.N - 1 - g
		cm = append(cm, hdr(s>>16, s, e>>16, e, 0, g)...)
	}
	f.put("cmap", cm)
	return f.Bytes
}

// OverlappingTables is a font, with right checksums, whose many unknown tables are all the same bytes, or parts of
// them.
func OverlappingTables(r *rand.Rand) []byte {
	f := Font(r, Opt{MaxN: 30, Plain: true})
	k := 1000 + r.Intn(1000)
	big := make([]byte, 30000+r.Intn(30000))
	r.Read(big)
	ts := append(append([]T(nil), f.Tables...), T{"zzzz", big})
	for i := 0; i < k; i++ {
		ts = append(ts, T{fmt.Sprintf("x%03x", i), nil})
	}
	b := Assemble(0x00010000, ts, nil, true)
	off := 0
	for i := 0; i < int(be.Uint16(b[4:])); i++ {
		if rec := b[12+16*i:]; string(rec[:4]) == "zzzz" {
			off = int(be.Uint32(rec[8:]))
		}
	}
	for i := 0; i < int(be.Uint16(b[4:])); i++ {
		if rec := b[12+16*i:]; rec[0] == 'x' {
			c := r.Intn(100)
			be.PutUint32(rec[8:], uint32(off+r.Intn(c+1)))
			be.PutUint32(rec[12:], uint32(len(big)-c))
		}
	}
	FixSums(b)
	return b
}

// EmptyGlyphs is a font of very many glyphs, (nearly) all of them empty, in few bytes.
func EmptyGlyphs(r *rand.Rand) []byte {
	f := Font(r, Opt{N: 5 + r.Intn(20), Plain: true})
	n := 30000 + r.Intn(35000)
	at := map[string][]byte{}
	for _, t := range f.Tables {
		at[t.Tag] = append([]byte(nil), t.Data...)
	}
	be.PutUint16(at["maxp"][4:], uint16(n))
	be.PutUint16(at["hhea"][34:], 1)
	be.PutUint16(at["head"][50:], 0)
	ts := []T{{"head", at["head"]}, {"hhea", at["hhea"]}, {"maxp", at["maxp"]}, {"hmtx", make([]byte, 4+2*(n-1))}}
	if r.Intn(4) > 0 {
		loca := make([]byte, 2*(n+1))
		if r.Intn(2) == 0 { // the same short glyph at the end
			be.PutUint16(loca[2*n:], 6)
		}
		ts = append(ts, T{"glyf", hdr(0, 0, 0, 100, 100, 0)}, T{"loca", loca})
	}
	switch r.Intn(3) {
	case 0:
		ts = append(ts, T{"post", hdr(3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)})
	case 1:
		post := hdr(2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, n)
		ts = append(ts, T{"post", append(post, make([]byte, 2*n)...)})
	}
	return Assemble(0x00010000, ts, nil, true)
}
