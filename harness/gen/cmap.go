package gen

import (
	"sort"
	"sync"

	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
)

type cm struct {
	c int
	g int
}

type encRec struct {
	p, e, lang int
	data       []byte
	share      int // index of the record whose data is shared, or -1
}

// cmap makes a cmap table for a font of n glyphs.
func (x *g) cmap(n int) []byte {
	type pe struct{ p, e int }
	cands := []pe{{3, 1}, {3, 1}, {3, 1}, {1, 0}, {1, 0}, {0, 3}, {0, 3}, {3, 10}, {3, 10}, {0, 4}, {3, 0}, {0, 0}, {0, 1}, {0, 2}, {0, 6}, {3, 2}, {3, 3}, {3, 4}, {3, 5}, {0, 5}, {2, 1}, {1, 1}}
	if x.o.Plain {
		cands = []pe{{3, 1}, {1, 0}, {0, 3}, {3, 10}}
	}
	k := 1 + x.Intn(5)
	if x.p(4) {
		k = 0
		if x.o.NeedCmap {
			k = 1
		}
	}
	if x.ex == exSubtables {
		k = 60
		for e := 6; e < 40; e++ {
			if e != 10 {
				cands = append(cands, pe{3, e})
			}
		}
		for e := 1; e < 20; e++ {
			cands = append(cands, pe{1, e})
		}
	}
	seen := map[pe]bool{}
	var recs []encRec
	for i := 0; i < k; i++ {
		c := cands[x.Intn(len(cands))]
		if seen[c] {
			continue
		}
		seen[c] = true
		langs := 1
		if c.p == 1 && x.rare(12) {
			langs = 2
			x.feat("one cmap platform/encoding in two languages")
		}
		for l := 0; l < langs; l++ {
			recs = append(recs, encRec{p: c.p, e: c.e, lang: l, share: -1})
		}
	}
	sort.SliceStable(recs, func(i, j int) bool {
		if recs[i].p != recs[j].p {
			return recs[i].p < recs[j].p
		}
		return recs[i].e < recs[j].e
	})
	full := func(p, e int) bool { return p == 3 && e == 10 || p == 0 && (e == 4 || e == 6) }
	for i := range recs {
		r := &recs[i]
		if x.p(20) && r.lang == 0 {
			for j := 0; j < i; j++ {
				q := recs[j]
				if q.share < 0 && q.lang == 0 && (q.p == 0 || q.p == 3) && (r.p == 0 || r.p == 3) &&
					full(q.p, q.e) == full(r.p, r.e) && !cjk(q.p, q.e) && !cjk(r.p, r.e) && q.e != 5 && r.e != 5 {
					r.share = j
					x.feat("cmap records share a subtable")
				}
			}
			if r.share >= 0 {
				continue
			}
		}
		lang := 0
		if r.p == 1 {
			lang = r.lang
			if r.lang == 0 && x.rare(15) {
				lang = 3
			}
		}
		switch {
		case r.p == 0 && r.e == 5:
			r.data = x.unsupported(14)
		case x.rare(6):
			fs := []int{2, 8, 10, 13}
			r.data = x.unsupported(fs[x.Intn(4)])
		case full(r.p, r.e):
			if x.rare(5) { // a field of four bytes here
				lang = int(x.Uint32())
				x.feat("language in a format 12 map")
			}
			r.data = x.fmt12(x.codes(n, 0x10FFFF, r.p, r.e), lang)
		case r.p == 1:
			switch x.Intn(8) {
			case 0, 1, 2, 3:
				r.data = x.fmt0(n, lang)
			case 4, 5, 6:
				r.data = x.fmt6(n, r.p, lang)
			default:
				r.data = x.fmt4(x.codes(n, 255, r.p, r.e), lang)
			}
		case cjk(r.p, r.e):
			r.data = x.fmt4(x.cjkCodes(n, r.e), lang)
		default:
			switch k := x.Intn(20); {
			case k < 16:
				r.data = x.fmt4(x.codes(n, 0xFFFE, r.p, r.e), lang)
			case k < 18:
				r.data = x.fmt6(n, r.p, lang)
			default:
				if r.p == 3 && r.e == 1 || x.o.Plain {
					r.data = x.fmt4(x.codes(n, 0xFFFE, r.p, r.e), lang)
				} else {
					r.data = x.fmt12(x.codes(n, 0xFFFE, r.p, r.e), lang)
				}
			}
		}
	}
	hdr := []byte{0, 0, byte(len(recs) >> 8), byte(len(recs))}
	body := []byte{}
	offs := make([]int, len(recs))
	for i, r := range recs {
		if r.share >= 0 {
			offs[i] = offs[r.share]
			continue
		}
		for x.p(20) && len(body)%4 != 0 {
			body = append(body, 0)
		}
		offs[i] = 4 + 8*len(recs) + len(body)
		body = append(body, r.data...)
	}
	for i, r := range recs {
		hdr = append(hdr, byte(r.p>>8), byte(r.p), byte(r.e>>8), byte(r.e), byte(offs[i]>>24), byte(offs[i]>>16), byte(offs[i]>>8), byte(offs[i]))
	}
	return append(hdr, body...)
}

func cjk(p, e int) bool { return p == 3 && e >= 2 && e <= 4 }

// codes makes a random partial map from codes to glyphs, in runs.
func (x *g) codes(n, max, p, e int) (out []cm) {
	want := 1 + x.Intn(n+2)
	if x.p(15) {
		want = 2*n + x.Intn(20)
	}
	lim := 500
	if x.o.Huge || x.p(3) {
		lim = 3000
	}
	if x.o.Small {
		lim = 20
	}
	if want > lim {
		want = lim
	}
	if x.ex == exRuns {
		want = 2000 + x.Intn(6000)
		if max > 0xFFFF && x.p(4) {
			want = 68000 + x.Intn(4000)
			x.feat("cmap of more than 65536 groups")
		}
	}
	if x.p(3) {
		want = 0
		x.feat("cmap subtable mapping nothing")
	}
	m := map[int]int{}
	if x.rare(8) && want > 4 { // few codes, far apart
		want = 1 + x.Intn(4)
	}
	lastC, lastG := -1, 0
	for tries := 0; len(m) < want && tries < 3*want+20; tries++ {
		c := 0
		switch k := x.Intn(10); {
		case k < 4:
			c = 0x20 + x.Intn(0x120)
		case k == 4 && max >= 0xFFFE && e == 0 && p == 3:
			c = 0xF000 + x.Intn(256)
		case k < 8:
			c = x.Intn(min(max, 0xFFFE) + 1)
		case k == 8 && max >= 0xFFFE:
			c = []int{0xFFFE, 0xFFFD, 0xD7FF, 0xE000, 0, 1, 0xFFF0, 0x7FFF, 0x8000, 0xFF, 0x100}[x.Intn(11)]
		default:
			c = x.Intn(max + 1)
		}
		run := 1
		if x.p(60) {
			run = 1 + x.Intn(20)
		}
		if x.ex == exRuns {
			c, run = x.Intn(max+1), 1+x.Intn(2)
		}
		gid := x.Intn(n)
		mode := x.Intn(3) // consecutive glyphs, random glyphs, random with holes
		if lastC >= 0 && x.p(15) {
			// where the last run would go on, but for a few bits of the code or the glyph
			c, gid = lastC+1, lastG+1
			switch x.Intn(3) {
			case 0:
				c += (1 + x.Intn(16)) << 16
			case 1:
				c += 1 << (1 + x.Intn(15))
			default:
				gid += 1 << x.Intn(16)
			}
			if gid >= n {
				gid = x.Intn(n)
			}
			mode = 0
			x.feat("cmap run that nearly goes on")
		}
		for i := 0; i < run; i++ {
			cc := c + i
			if cc > max || cc >= 0xD800 && cc < 0xE000 || cc == 0xFFFF {
				break
			}
			v := gid
			switch mode {
			case 0:
				v = gid + i
				if v >= n {
					break
				}
			case 1:
				v = x.Intn(n)
			case 2:
				v = x.Intn(n)
				if x.p(30) {
					v = 0
				}
			}
			if v < n {
				m[cc] = v
				lastC, lastG = cc, v
			}
		}
	}
	for c, v := range m {
		out = append(out, cm{c, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].c < out[j].c })
	return
}

// twins are the characters with several codes, by encoding.
var twins = sync.OnceValue(func() (out [5][][]int) {
	for e := 2; e <= 4; e++ {
		codes := map[rune][]int{}
		for c := 0; c <= 0xFFFF; c++ {
			if r, ok := CJKRune(e, uint32(c)); ok {
				codes[r] = append(codes[r], c)
			}
		}
		for _, l := range codes {
			if len(l) > 1 {
				out[e] = append(out[e], l)
			}
		}
		sort.Slice(out[e], func(i, j int) bool { return out[e][i][0] < out[e][j][0] })
	}
	return
})

// cjkCodes makes a map over codes of the double byte encodings which stand for a single character.
func (x *g) cjkCodes(n, e int) (out []cm) {
	m := map[int]int{}
	if t := twins()[e]; len(t) > 0 {
		for i := x.Intn(4); i > 0; i-- {
			for _, c := range t[x.Intn(len(t))] {
				m[c] = x.Intn(n)
			}
			x.feat("characters with several codes")
		}
	}
	for i := 0; i < 5+x.Intn(60); i++ {
		c := 0
		if x.p(30) {
			c = 0x20 + x.Intn(95)
		} else {
			lead := 0x81 + x.Intn(0xFE-0x81)
			c = lead<<8 | 0x40 + x.Intn(0xBD)
		}
		if _, ok := CJKRune(e, uint32(c)); ok {
			m[c] = x.Intn(n)
			x.feat("CJK cmap")
		}
	}
	for c, v := range m {
		out = append(out, cm{c, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].c < out[j].c })
	return
}

// CJKRune decodes a code of the Windows platform encoding e (2 ShiftJIS, 3 PRC, 4 Big5). It reports false where
// the code is not exactly one character.
func CJKRune(e int, c uint32) (rune, bool) {
	b := []byte{byte(c)}
	if c > 0xFF {
		b = []byte{byte(c >> 8), byte(c)}
	}
	var out []byte
	var err error
	switch e {
	case 2:
		out, err = japanese.ShiftJIS.NewDecoder().Bytes(b)
	case 3:
		out, err = simplifiedchinese.GBK.NewDecoder().Bytes(b)
	case 4:
		out, err = traditionalchinese.Big5.NewDecoder().Bytes(b)
	default:
		return 0, false
	}
	r := []rune(string(out))
	if err != nil || len(r) != 1 || r[0] == 0xFFFD {
		return 0, false
	}
	return r[0], true
}

func hdr(v ...int) (b []byte) {
	for _, k := range v {
		b = append(b, byte(k>>8), byte(k))
	}
	return
}

func (x *g) fmt0(n, lang int) []byte {
	b := hdr(0, 262, lang)
	pct := 10 + x.Intn(85)
	for c := 0; c < 256; c++ {
		v := 0
		if x.p(pct) {
			v = x.Intn(min(n, 256))
		}
		b = append(b, byte(v))
	}
	x.feat("cmap format 0")
	return b
}

func (x *g) fmt6(n, p, lang int) []byte {
	cnt := x.Intn(60)
	if x.p(15) {
		cnt = 200 + x.Intn(56)
	}
	if x.o.Small {
		cnt = x.Intn(10)
	}
	if x.ex == exRuns && p != 1 {
		cnt = 2000 + x.Intn(12000)
	}
	first := 0
	if p == 1 {
		first = x.Intn(256 - min(cnt, 255))
	} else {
		first = x.Intn(0xD800 - cnt)
	}
	if cnt == 256 {
		first = 0
	}
	b := hdr(6, 10+2*cnt, lang, first, cnt)
	for i := 0; i < cnt; i++ {
		v := x.Intn(n)
		if x.p(25) {
			v = 0
		}
		b = append(b, byte(v>>8), byte(v))
	}
	x.feat("cmap format 6")
	return b
}

func (x *g) fmt12(m []cm, lang int) []byte {
	var body []byte
	k := 0
	u32 := func(v int) { body = append(body, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	for i := 0; i < len(m); {
		j := i + 1
		for j < len(m) && m[j].c == m[i].c+j-i && m[j].g == m[i].g+j-i && !x.p(3) {
			j++
		}
		u32(m[i].c)
		u32(m[j-1].c)
		u32(m[i].g)
		k++
		i = j
	}
	if len(m) > 0 && m[len(m)-1].c > 0xFFFF {
		x.feat("supplementary characters")
	}
	l := 16 + len(body)
	b := append(hdr(12, 0), byte(l>>24), byte(l>>16), byte(l>>8), byte(l), byte(lang>>24), byte(lang>>16), byte(lang>>8), byte(lang), byte(k>>24), byte(k>>16), byte(k>>8), byte(k))
	x.feat("cmap format 12")
	return append(b, body...)
}

func (x *g) fmt4(m []cm, lang int) []byte {
	type seg struct {
		c1, c2, delta int
		arr           []int // raw glyphIDArray entries, nil for delta segments
		at            int
	}
	var segs []seg
	for i := 0; i < len(m); {
		j := i + 1
		cons := true
		for j < len(m) && m[j].c == m[i].c+j-i && !x.p(3) {
			if m[j].g != m[i].g+j-i {
				if cons && j-i > 1 && x.p(50) {
					break
				}
				cons = false
			}
			j++
		}
		s := seg{c1: m[i].c, c2: m[j-1].c}
		if cons && !x.p(20) {
			s.delta = (m[i].g - m[i].c) & 0xFFFF
			x.feat("cmap format 4 delta segment")
		} else {
			// a range offset segment, sometimes with an idDelta to add
			d := 0
			if x.p(40) {
				d = x.Intn(65536)
				x.feat("cmap format 4 idDelta on a range offset segment")
			}
			for q := i; q < j; q++ {
				if m[q].g != 0 && (m[q].g-d)&0xFFFF == 0 {
					d = 0
				}
			}
			s.delta = d
			for q := i; q < j; q++ {
				v := 0
				if m[q].g != 0 {
					v = (m[q].g - d) & 0xFFFF
				} else {
					x.feat("cmap format 4 hole")
				}
				s.arr = append(s.arr, v)
			}
			x.feat("cmap format 4 range offset segment")
		}
		segs = append(segs, s)
		i = j
	}
	// an explicit mapping of a code to glyph 0 through a delta segment is a legal way to say "missing"
	segs = append(segs, seg{c1: 0xFFFF, c2: 0xFFFF, delta: 1})
	n := len(segs)
	var arr []int
	var ro []int
	for i := range segs {
		s := &segs[i]
		if s.arr == nil {
			ro = append(ro, 0)
			continue
		}
		// share an identical earlier run
		at := -1
		if x.p(50) {
			for k := 0; k+len(s.arr) <= len(arr) && at < 0; k++ {
				ok := true
				for q, v := range s.arr {
					if arr[k+q] != v {
						ok = false
						break
					}
				}
				if ok {
					at = k
					x.feat("cmap format 4 segments share glyph ids")
				}
			}
		}
		if at < 0 {
			at = len(arr)
			arr = append(arr, s.arr...)
		}
		ro = append(ro, 2*(n-i)+2*at)
	}
	l := 16 + 8*n + 2*len(arr)
	es := 0
	for 1<<(es+1) <= n {
		es++
	}
	if l > 65535 {
		return x.fmt4(m[:len(m)/2], lang)
	}
	b := hdr(4, l, lang, 2*n, 2<<es, es, 2*n-2<<es)
	for _, s := range segs {
		b = append(b, hdr(s.c2)...)
	}
	b = append(b, 0, 0)
	for _, s := range segs {
		b = append(b, hdr(s.c1)...)
	}
	for _, s := range segs {
		b = append(b, hdr(s.delta)...)
	}
	b = append(b, hdr(ro...)...)
	b = append(b, hdr(arr...)...)
	x.feat("cmap format 4")
	return b
}

// unsupported makes a subtable of a format the library skips.
func (x *g) unsupported(f int) []byte {
	x.feat("cmap format %d", f)
	switch f {
	case 2:
		b := hdr(2, 6+512+8+2*20, 0)
		b = append(b, make([]byte, 512)...)
		b = append(b, hdr(0x20, 20, 0, 2)...)
		return append(b, make([]byte, 40)...)
	case 8:
		return append(append(hdr(8, 0, 0, 16+8192, 0, 0), make([]byte, 8192)...), 0, 0, 0, 0)
	case 10:
		return append(hdr(10, 0, 0, 20+4, 0, 0, 0, 0x41, 0, 2), 0, 1, 0, 0)
	case 13:
		return append(hdr(13, 0, 0, 28, 0, 0, 0, 1), hdr(0, 0x20, 0, 0x7E, 0, 0)...)
	case 14:
		return append(hdr(14), hdr(0, 10, 0, 0)...)
	}
	return nil
}
