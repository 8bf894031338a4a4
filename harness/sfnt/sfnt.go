// Package sfnt is an independent reference reader for TrueType (sfnt) files. It is written from the
// OpenType/TrueType specification, shares no code with the library under observation, and is the oracle the
// monitors judge executions by.
package sfnt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

var be = binary.BigEndian

// Rec is a table directory record.
type Rec struct {
	Tag           string // trimmed of trailing spaces
	RawTag        string
	Sum, Off, Len uint32
}

// Dir is a table directory.
type Dir struct {
	Version                                           uint32
	NumTables, SearchRange, EntrySelector, RangeShift uint16
	Recs                                              []Rec
}

// ReadDir reads the table directory of b.
func ReadDir(b []byte) (*Dir, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file of %d bytes has no table directory", len(b))
	}
	d := &Dir{Version: be.Uint32(b), NumTables: be.Uint16(b[4:]), SearchRange: be.Uint16(b[6:]),
		EntrySelector: be.Uint16(b[8:]), RangeShift: be.Uint16(b[10:])}
	if len(b) < 12+16*int(d.NumTables) {
		return nil, fmt.Errorf("directory announces %d tables, file is only %d bytes", d.NumTables, len(b))
	}
	for i := 0; i < int(d.NumTables); i++ {
		p := b[12+16*i:]
		d.Recs = append(d.Recs, Rec{RawTag: string(p[:4]), Tag: strings.TrimRight(string(p[:4]), " "),
			Sum: be.Uint32(p[4:]), Off: be.Uint32(p[8:]), Len: be.Uint32(p[12:])})
	}
	return d, nil
}

// Find returns the record of tag, or nil.
func (d *Dir) Find(tag string) *Rec {
	for i := range d.Recs {
		if d.Recs[i].Tag == tag {
			return &d.Recs[i]
		}
	}
	return nil
}

// Table returns the bytes of the table (exactly Len bytes, within the file).
func (d *Dir) Table(b []byte, tag string) ([]byte, bool, error) {
	r := d.Find(tag)
	if r == nil {
		return nil, false, nil
	}
	if uint64(r.Off)+uint64(r.Len) > uint64(len(b)) {
		return nil, true, fmt.Errorf("table %q [%d,+%d) lies outside the file (%d bytes)", tag, r.Off, r.Len, len(b))
	}
	return b[r.Off : r.Off+r.Len], true, nil
}

// Sum is the sfnt checksum: the sum of big-endian words, zero padded.
func Sum(b []byte) uint32 {
	var s uint32
	n := len(b) &^ 3
	for i := 0; i < n; i += 4 {
		s += be.Uint32(b[i:])
	}
	if n < len(b) {
		var t [4]byte
		copy(t[:], b[n:])
		s += be.Uint32(t[:])
	}
	return s
}

// ChecksumsOK tells whether every table checksum and the whole-file adjustment are right.
func ChecksumsOK(b []byte) error {
	d, err := ReadDir(b)
	if err != nil {
		return err
	}
	for _, r := range d.Recs {
		t, _, err := tableOf(b, r)
		if err != nil {
			return err
		}
		if r.Tag == "head" {
			if len(t) < 12 {
				return fmt.Errorf("head too short")
			}
			t = append([]byte(nil), t...)
			copy(t[8:12], []byte{0, 0, 0, 0})
		}
		if s := Sum(t); s != r.Sum {
			return fmt.Errorf("table %q: record checksum %08x, content sums to %08x", r.Tag, r.Sum, s)
		}
	}
	h := d.Find("head")
	if h == nil {
		return fmt.Errorf("no head table")
	}
	c := append([]byte(nil), b...)
	adj := be.Uint32(c[h.Off+8:])
	copy(c[h.Off+8:], []byte{0, 0, 0, 0})
	if want := 0xB1B0AFBA - Sum(c); adj != want {
		return fmt.Errorf("head.checksumAdjustment %08x, file needs %08x", adj, want)
	}
	return nil
}

func tableOf(b []byte, r Rec) ([]byte, bool, error) {
	if r.Len == 0 {
		return nil, true, nil // no byte of it is missing, wherever it is
	}
	if uint64(r.Off)+uint64(r.Len) > uint64(len(b)) {
		return nil, true, fmt.Errorf("table %q [%d,+%d) lies outside the file (%d bytes)", r.Tag, r.Off, r.Len, len(b))
	}
	return b[r.Off : r.Off+r.Len], true, nil
}

// CheckContainer checks the requirements the specification puts on the container of a written font. It
// returns one line per violated requirement.
func CheckContainer(b []byte) (issues []string) {
	bad := func(f string, a ...interface{}) { issues = append(issues, fmt.Sprintf(f, a...)) }
	d, err := ReadDir(b)
	if err != nil {
		bad("%v", err)
		return
	}
	n := int(d.NumTables)
	if n == 0 {
		bad("no tables")
		return
	}
	es := 0
	for 1<<(es+1) <= n {
		es++
	}
	if sr := 16 << es; int(d.SearchRange) != sr || int(d.EntrySelector) != es || int(d.RangeShift) != 16*n-sr {
		bad("offset table for %d tables has searchRange/entrySelector/rangeShift %d/%d/%d, want %d/%d/%d", n,
			d.SearchRange, d.EntrySelector, d.RangeShift, sr, es, 16*n-sr)
	}
	type span struct {
		lo, hi uint64
		tag    string
	}
	var spans []span
	for i, r := range d.Recs {
		if i > 0 && d.Recs[i-1].RawTag >= r.RawTag {
			bad("table records not in strictly ascending tag order: %q before %q", d.Recs[i-1].RawTag, r.RawTag)
		}
		for _, c := range []byte(r.RawTag) {
			if c < 0x20 || c > 0x7e {
				bad("table tag %q is not printable ASCII", r.RawTag)
			}
		}
		if r.Off%4 != 0 {
			bad("table %q starts at %d, not on a four-byte boundary", r.Tag, r.Off)
		}
		if uint64(r.Off)+uint64(r.Len) > uint64(len(b)) {
			bad("table %q [%d,+%d) lies outside the file (%d bytes)", r.Tag, r.Off, r.Len, len(b))
			return
		}
		if int(r.Off) < 12+16*n {
			bad("table %q at %d overlaps the table directory", r.Tag, r.Off)
		}
		spans = append(spans, span{uint64(r.Off), uint64(r.Off) + uint64(r.Len), r.Tag})
	}
	sort.Slice(spans, func(i, j int) bool {
		return spans[i].lo < spans[j].lo || spans[i].lo == spans[j].lo && spans[i].hi < spans[j].hi
	})
	end := uint64(12 + 16*n)
	for i, s := range spans {
		if i > 0 && s.lo < spans[i-1].hi {
			bad("tables %q and %q overlap", spans[i-1].tag, s.tag)
		}
		if s.lo > end {
			if s.lo-end > 3 {
				bad("%d stray bytes before table %q", s.lo-end, s.tag)
			}
			if !zero(b[end:s.lo]) {
				bad("non-zero padding before table %q", s.tag)
			}
		}
		if s.hi > end {
			end = s.hi
		}
	}
	if uint64(len(b))-end > 3 {
		bad("%d stray bytes after the last table", uint64(len(b))-end)
	} else if !zero(b[end:]) {
		bad("non-zero padding after the last table")
	}
	if err := ChecksumsOK(b); err != nil {
		bad("%v", err)
	}
	return
}

func zero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// Name is one name record.
type Name struct {
	Plat, Enc, Lang, ID uint16
	Data                []byte
}

// Sub is one cmap subtable as referenced by an encoding record.
type Sub struct {
	Plat, Enc int
	Format    int
	Lang      uint32
	odd       []string
	Supported bool              // format 0, 4, 6 or 12
	Map       map[uint32]uint16 // code -> glyph (non-zero only)
}

// Sem is the semantic content of a font file.
type Sem struct {
	Version                  uint32
	Tags                     []string
	NumGlyphs                int
	LocFormat                int
	Head                     []byte   // 54 bytes, checksumAdjustment zeroed
	Maxp                     []byte   // 32 bytes, numGlyphs zeroed
	Hhea                     []byte   // 36 bytes, numberOfHMetrics and reserved words zeroed
	Odd                      []string // reserved fields that are not zero, and lengths that are more than needed: "table: what"
	NHM                      int
	HasHmtx                  bool
	Adv                      []uint16
	Lsb                      []int16
	HasGlyf                  bool
	Loca                     []uint32 // byte offsets
	Glyphs                   [][]byte
	HasCmap                  bool
	Cmap                     []Sub
	HasName                  bool
	NameFmt                  int
	Names                    []Name
	LangTags                 [][]byte
	OS2                      []byte // nil when absent
	Post                     []byte // 32 byte header, nil when absent
	PostVer                  uint32
	PostLen                  int
	PostN                    int      // glyphs named, 0 when the table names none
	PostNames                []string // by glyph; nil when not those of the source
	Cvt, Prep, Fpgm          []byte
	HasCvt, HasPrep, HasFpgm bool
}

// SupportedTags are the tables the library models and writes.
var SupportedTags = map[string]bool{"head": true, "maxp": true, "hhea": true, "hmtx": true, "loca": true, "glyf": true,
	"prep": true, "cvt": true, "fpgm": true, "name": true, "OS/2": true, "post": true, "cmap": true}

// Read reads the semantic content of b. Every table must stay within its own bounds.
func Read(b []byte) (*Sem, error) {
	d, err := ReadDir(b)
	if err != nil {
		return nil, err
	}
	s := &Sem{Version: d.Version}
	for _, r := range d.Recs {
		s.Tags = append(s.Tags, r.Tag)
	}
	sort.Strings(s.Tags)
	get := func(tag string, min int) ([]byte, bool, error) {
		t, has, err := d.Table(b, tag)
		if err != nil {
			return nil, has, err
		}
		if has && len(t) < min {
			return nil, has, fmt.Errorf("table %q has %d bytes, needs %d", tag, len(t), min)
		}
		return t, has, nil
	}
	need := func(tag string, min int) ([]byte, error) {
		t, has, err := get(tag, min)
		if err == nil && !has {
			err = fmt.Errorf("required table %q absent", tag)
		}
		return t, err
	}
	head, err := need("head", 54)
	if err != nil {
		return nil, err
	}
	if be.Uint32(head[12:]) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("head magic %08x", be.Uint32(head[12:]))
	}
	s.Head = append([]byte(nil), head[:54]...)
	copy(s.Head[8:12], []byte{0, 0, 0, 0})
	s.LocFormat = int(int16(be.Uint16(head[50:])))
	if s.LocFormat != 0 && s.LocFormat != 1 {
		return nil, fmt.Errorf("indexToLocFormat %d", s.LocFormat)
	}
	maxp, err := need("maxp", 32)
	if err != nil {
		return nil, err
	}
	s.NumGlyphs = int(be.Uint16(maxp[4:]))
	s.Maxp = append([]byte(nil), maxp[:32]...)
	copy(s.Maxp[4:6], []byte{0, 0})
	hhea, err := need("hhea", 36)
	if err != nil {
		return nil, err
	}
	s.NHM = int(be.Uint16(hhea[34:]))
	s.Hhea = append([]byte(nil), hhea[:36]...)
	if !bytes.Equal(s.Hhea[24:32], make([]byte, 8)) {
		s.Odd = append(s.Odd, "hhea: reserved words")
	}
	copy(s.Hhea[24:32], make([]byte, 8))
	copy(s.Hhea[34:36], make([]byte, 2))
	if err := s.readHmtx(get); err != nil {
		return nil, err
	}
	if err := s.readGlyphs(need, get); err != nil {
		return nil, err
	}
	if err := s.readCmap(get); err != nil {
		return nil, err
	}
	if err := s.readName(get); err != nil {
		return nil, err
	}
	os2, has, err := get("OS/2", 68)
	if err != nil {
		return nil, err
	}
	if has {
		v := be.Uint16(os2)
		n := OS2Len(v)
		if v == 0 && len(os2) < n {
			n = 68 // as Apple defined it at first
		}
		if len(os2) < n {
			return nil, fmt.Errorf("OS/2 version %d has %d bytes, needs %d", v, len(os2), n)
		}
		s.OS2 = append([]byte{}, os2[:n]...)
	}
	post, has, err := get("post", 32)
	if err != nil {
		return nil, err
	}
	if has {
		s.Post = append([]byte{}, post[:32]...)
		s.PostVer = be.Uint32(post)
		s.PostLen = len(post)
		s.PostN, s.PostNames = postNames(post, s.NumGlyphs)
	}
	for _, x := range []struct {
		tag string
		p   *[]byte
		has *bool
	}{{"cvt", &s.Cvt, &s.HasCvt}, {"prep", &s.Prep, &s.HasPrep}, {"fpgm", &s.Fpgm, &s.HasFpgm}} {
		t, has, err := get(x.tag, 0)
		if err != nil {
			return nil, err
		}
		*x.p, *x.has = append([]byte{}, t...), has
	}
	return s, nil
}

// OS2Len is the number of bytes version v of the OS/2 table defines.
func OS2Len(v uint16) int {
	switch {
	case v == 0:
		return 78
	case v == 1:
		return 86
	case v < 5:
		return 96
	}
	return 100
}

type getter func(tag string, min int) ([]byte, bool, error)

func (s *Sem) readHmtx(get getter) error {
	hm, has, err := get("hmtx", 0)
	if err != nil || !has {
		return err
	}
	s.HasHmtx = true
	n, k := s.NumGlyphs, s.NHM
	if k == 0 && n > 0 {
		return fmt.Errorf("numberOfHMetrics is 0 for %d glyphs", n)
	}
	lsbs := n - k
	if lsbs < 0 {
		lsbs = 0
	}
	if len(hm) < 4*k+2*lsbs {
		return fmt.Errorf("hmtx has %d bytes, numberOfHMetrics %d and numGlyphs %d need %d", len(hm), k, n, 4*k+2*lsbs)
	}
	for g := 0; g < n; g++ {
		if g < k {
			s.Adv = append(s.Adv, be.Uint16(hm[4*g:]))
			s.Lsb = append(s.Lsb, int16(be.Uint16(hm[4*g+2:])))
		} else {
			s.Adv = append(s.Adv, be.Uint16(hm[4*(k-1):]))
			s.Lsb = append(s.Lsb, int16(be.Uint16(hm[4*k+2*(g-k):])))
		}
	}
	return nil
}

func (s *Sem) readGlyphs(need func(string, int) ([]byte, error), get getter) error {
	sz := 2
	if s.LocFormat == 1 {
		sz = 4
	}
	loca, err := need("loca", sz*(s.NumGlyphs+1))
	if err != nil {
		return err
	}
	for i := 0; i <= s.NumGlyphs; i++ {
		if sz == 2 {
			s.Loca = append(s.Loca, 2*uint32(be.Uint16(loca[2*i:])))
		} else {
			s.Loca = append(s.Loca, be.Uint32(loca[4*i:]))
		}
	}
	glyf, has, err := get("glyf", 0)
	if err != nil || !has {
		return err
	}
	s.HasGlyf = true
	for g := 0; g < s.NumGlyphs; g++ {
		lo, hi := s.Loca[g], s.Loca[g+1]
		if hi < lo {
			return fmt.Errorf("loca decreases at glyph %d (%d > %d)", g, lo, hi)
		}
		if int64(hi) > int64(len(glyf)) {
			return fmt.Errorf("loca puts glyph %d at [%d,%d), glyf has %d bytes", g, lo, hi, len(glyf))
		}
		s.Glyphs = append(s.Glyphs, glyf[lo:hi:hi])
	}
	return nil
}

// MoreThan is a guard against absurd group sizes.
const maxCodes = 1 << 21

func (s *Sem) readCmap(get getter) error {
	t, has, err := get("cmap", 4)
	if err != nil || !has {
		return err
	}
	s.HasCmap = true
	if be.Uint16(t) != 0 {
		s.Odd = append(s.Odd, "cmap: version")
	}
	n := int(be.Uint16(t[2:]))
	if len(t) < 4+8*n {
		return fmt.Errorf("cmap announces %d encoding records, has %d bytes", n, len(t))
	}
	for i := 0; i < n; i++ {
		p := t[4+8*i:]
		sub := Sub{Plat: int(be.Uint16(p)), Enc: int(be.Uint16(p[2:]))}
		off := be.Uint32(p[4:])
		if uint64(off)+2 > uint64(len(t)) {
			return fmt.Errorf("cmap record %d (%d,%d): offset %d outside table (%d)", i, sub.Plat, sub.Enc, off, len(t))
		}
		if off < uint32(4+8*n) {
			return fmt.Errorf("cmap record %d (%d,%d): offset %d inside the record array", i, sub.Plat, sub.Enc, off)
		}
		if err := sub.decode(t[off:]); err != nil {
			return fmt.Errorf("cmap record %d (%d,%d): %v", i, sub.Plat, sub.Enc, err)
		}
		s.Odd = append(s.Odd, sub.odd...)
		switch b := t[off:]; sub.Format {
		case 4:
			if be.Uint16(b[14+int(be.Uint16(b[6:])):]) != 0 {
				s.Odd = append(s.Odd, "cmap: reserved word of format 4")
			}
		case 6:
			if l := int(be.Uint16(b[2:])); l != 10+2*int(be.Uint16(b[8:])) {
				s.Odd = append(s.Odd, "cmap: length of format 6")
			}
		case 12:
			if be.Uint16(b[2:]) != 0 {
				s.Odd = append(s.Odd, "cmap: reserved word of format 12")
			}
		}
		s.Cmap = append(s.Cmap, sub)
	}
	return nil
}

func (sub *Sub) decode(b []byte) error {
	sub.Format = int(be.Uint16(b))
	sub.Map = map[uint32]uint16{}
	put := func(c uint32, g uint16) {
		if g != 0 {
			if _, has := sub.Map[c]; !has {
				sub.Map[c] = g
			}
		}
	}
	short := func(n int) error {
		if len(b) < n {
			return fmt.Errorf("format %d subtable needs %d bytes, has %d", sub.Format, n, len(b))
		}
		return nil
	}
	switch sub.Format {
	case 0:
		if err := short(262); err != nil {
			return err
		}
		if l := be.Uint16(b[2:]); l != 262 {
			return fmt.Errorf("format 0 length %d", l)
		}
		sub.Lang = uint32(be.Uint16(b[4:]))
		for c := 0; c < 256; c++ {
			put(uint32(c), uint16(b[6+c]))
		}
	case 4:
		if err := short(16); err != nil {
			return err
		}
		l := int(be.Uint16(b[2:]))
		if err := short(l); err != nil {
			return err
		}
		sub.Lang = uint32(be.Uint16(b[4:]))
		x2 := int(be.Uint16(b[6:]))
		if x2 == 0 || x2%2 != 0 {
			return fmt.Errorf("format 4 segCountX2 %d", x2)
		}
		if 16+4*x2 > l {
			return fmt.Errorf("format 4 length %d too small for %d segments", l, x2/2)
		}
		n := x2 / 2
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		if sr := 2 << es; int(be.Uint16(b[8:])) != sr || int(be.Uint16(b[10:])) != es || int(be.Uint16(b[12:])) != x2-sr {
			return fmt.Errorf("format 4 with %d segments has searchRange/entrySelector/rangeShift %d/%d/%d", n,
				be.Uint16(b[8:]), be.Uint16(b[10:]), be.Uint16(b[12:]))
		}
		end, start, delta, ro := b[14:], b[16+x2:], b[16+2*x2:], b[16+3*x2:]
		prev := -1
		for i := 0; i < n; i++ {
			c1, c2 := int(be.Uint16(start[2*i:])), int(be.Uint16(end[2*i:]))
			d, r := be.Uint16(delta[2*i:]), int(be.Uint16(ro[2*i:]))
			if c2 <= prev {
				return fmt.Errorf("format 4 segment end codes not increasing (%#x after %#x)", c2, prev)
			}
			if c1 > c2 {
				return fmt.Errorf("format 4 segment %d: start %#x > end %#x", i, c1, c2)
			}
			if c1 <= prev {
				return fmt.Errorf("format 4 segments overlap at %#x", c1)
			}
			prev = c2
			if r%2 != 0 {
				sub.odd = append(sub.odd, "cmap: odd range offset")
			}
			for c := c1; c <= c2; c++ {
				if r == 0 {
					put(uint32(c), uint16(c)+d)
					continue
				}
				p := 16 + 3*x2 + 2*i + r + 2*(c-c1)
				if p+2 > l {
					if c == 0xFFFF {
						sub.odd = append(sub.odd, "cmap: last segment of format 4 outside the subtable")
						continue // terminator with a dangling range offset: seen in real fonts
					}
					return fmt.Errorf("format 4 segment %d: code %#x points outside the subtable", i, c)
				}
				if g := be.Uint16(b[p:]); g != 0 {
					put(uint32(c), g+d)
				}
			}
		}
		if prev != 0xFFFF {
			return fmt.Errorf("format 4 does not end with the 0xFFFF segment")
		}
	case 6:
		if err := short(10); err != nil {
			return err
		}
		l := int(be.Uint16(b[2:]))
		sub.Lang = uint32(be.Uint16(b[4:]))
		first, cnt := int(be.Uint16(b[6:])), int(be.Uint16(b[8:]))
		if l < 10+2*cnt {
			return fmt.Errorf("format 6 length %d too small for %d entries", l, cnt)
		}
		if err := short(10 + 2*cnt); err != nil {
			return err
		}
		for i := 0; i < cnt; i++ {
			put(uint32(first+i), be.Uint16(b[10+2*i:]))
		}
	case 12:
		if err := short(16); err != nil {
			return err
		}
		l, n := be.Uint32(b[4:]), be.Uint32(b[12:])
		sub.Lang = be.Uint32(b[8:])
		if uint64(l) != 16+12*uint64(n) {
			return fmt.Errorf("format 12 length %d for %d groups", l, n)
		}
		if uint64(len(b)) < uint64(l) {
			return fmt.Errorf("format 12 needs %d bytes, has %d", l, len(b))
		}
		prev, tot := int64(-1), 0
		for i := 0; i < int(n); i++ {
			p := b[16+12*i:]
			c1, c2, g := be.Uint32(p), be.Uint32(p[4:]), be.Uint32(p[8:])
			if c1 > c2 || int64(c1) <= prev {
				return fmt.Errorf("format 12 groups not ascending at group %d", i)
			}
			prev = int64(c2)
			if tot += int(c2-c1) + 1; tot > maxCodes {
				return fmt.Errorf("format 12 covers too many codes")
			}
			for c := c1; c <= c2; c++ {
				if g > 0xFFFF {
					return fmt.Errorf("format 12 glyph %d", g)
				}
				put(c, uint16(g))
				g++
			}
		}
	default:
		return nil
	}
	sub.Supported = true
	return nil
}

func (s *Sem) readName(get getter) error {
	t, has, err := get("name", 6)
	if err != nil || !has {
		return err
	}
	s.HasName = true
	s.NameFmt = int(be.Uint16(t))
	n, so := int(be.Uint16(t[2:])), int(be.Uint16(t[4:]))
	str := func(off, l uint16) ([]byte, error) {
		a := so + int(off)
		if a+int(l) > len(t) {
			return nil, fmt.Errorf("name string [%d,+%d) outside table (%d)", a, l, len(t))
		}
		return t[a : a+int(l) : a+int(l)], nil
	}
	min := 6 + 12*n
	if len(t) < min {
		return fmt.Errorf("name table too short for %d records", n)
	}
	for i := 0; i < n; i++ {
		p := t[6+12*i:]
		data, err := str(be.Uint16(p[10:]), be.Uint16(p[8:]))
		if err != nil {
			return err
		}
		s.Names = append(s.Names, Name{be.Uint16(p), be.Uint16(p[2:]), be.Uint16(p[4:]), be.Uint16(p[6:]), data})
	}
	if s.NameFmt == 1 {
		if len(t) < min+2 {
			return fmt.Errorf("name table too short for language tags")
		}
		k := int(be.Uint16(t[min:]))
		q := t[min+2:]
		min += 2 + 4*k
		if len(t) < min {
			return fmt.Errorf("name table too short for %d language tags", k)
		}
		for i := 0; i < k; i++ {
			data, err := str(be.Uint16(q[4*i+2:]), be.Uint16(q[4*i:]))
			if err != nil {
				return err
			}
			s.LangTags = append(s.LangTags, data)
		}
	}
	if so < min {
		return fmt.Errorf("name string storage at %d overlaps the records (end %d)", so, min)
	}
	return nil
}

// Components lists the glyphs a composite glyph description refers to; nil for simple or empty glyphs.
func Components(g []byte) ([]uint16, error) {
	if len(g) == 0 {
		return nil, nil
	}
	if len(g) < 10 {
		return nil, fmt.Errorf("glyph of %d bytes", len(g))
	}
	if int16(be.Uint16(g)) >= 0 {
		return nil, nil
	}
	var out []uint16
	p := 10
	for {
		if p+4 > len(g) {
			return nil, fmt.Errorf("truncated composite")
		}
		fl, gid := be.Uint16(g[p:]), be.Uint16(g[p+2:])
		out = append(out, gid)
		p += 4
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		switch {
		case fl&8 != 0:
			p += 2
		case fl&0x40 != 0:
			p += 4
		case fl&0x80 != 0:
			p += 8
		}
		if p > len(g) {
			return nil, fmt.Errorf("truncated composite")
		}
		if fl&0x20 == 0 {
			return out, nil
		}
	}
}

// Closure expands gids by the components they need, transitively. Identifiers outside the font are kept in the
// set but have nothing to expand.
func (s *Sem) Closure(gids []uint16) (map[uint16]bool, error) {
	set := map[uint16]bool{}
	todo := append([]uint16(nil), gids...)
	for len(todo) > 0 {
		g := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if set[g] {
			continue
		}
		set[g] = true
		if int(g) >= len(s.Glyphs) {
			continue
		}
		cs, err := Components(s.Glyphs[g])
		if err != nil {
			return nil, fmt.Errorf("glyph %d: %v", g, err)
		}
		todo = append(todo, cs...)
	}
	return set, nil
}

// postNames reads the glyph names of a table for n glyphs; malformed ones are nil.
func postNames(post []byte, n int) (int, []string) {
	switch be.Uint32(post) {
	case 0x10000:
		if n != len(StandardNames) {
			return n, nil
		}
		return n, append([]string(nil), StandardNames...)
	case 0x20000:
		if len(post) < 34 || len(post) < 34+2*int(be.Uint16(post[32:])) {
			return 0, nil
		}
		k := int(be.Uint16(post[32:]))
		var pool []string
		for p := 34 + 2*k; p < len(post); {
			l := int(post[p])
			if p+1+l > len(post) {
				break
			}
			pool = append(pool, string(post[p+1:p+1+l]))
			p += 1 + l
		}
		names := make([]string, k)
		for i := range names {
			v := int(be.Uint16(post[34+2*i:]))
			if v < 258 {
				names[i] = StandardNames[v]
			} else if v-258 < len(pool) {
				names[i] = pool[v-258]
			}
		}
		return k, names
	case 0x25000:
		if len(post) < 34 {
			return 0, nil
		}
		k := int(be.Uint16(post[32:]))
		if len(post) < 34+k {
			return 0, nil
		}
		names := make([]string, k)
		for i := range names {
			if v := i + int(int8(post[34+i])); v >= 0 && v < 258 {
				names[i] = StandardNames[v]
			}
		}
		return k, names
	}
	return 0, nil
}

// Clone copies s deeply enough for the derivations below.
func (s *Sem) Clone() *Sem {
	c := *s
	c.Tags = append([]string(nil), s.Tags...)
	c.Adv = append([]uint16(nil), s.Adv...)
	c.Lsb = append([]int16(nil), s.Lsb...)
	c.Glyphs = append([][]byte(nil), s.Glyphs...)
	c.Cmap = append([]Sub(nil), s.Cmap...)
	return &c
}

// Written is what a font with content s contains after it was written: modelled tables only, supported
// character maps only.
func (s *Sem) Written() *Sem {
	c := s.Clone()
	c.Tags = nil
	for _, t := range s.Tags {
		if SupportedTags[t] {
			c.Tags = append(c.Tags, t)
		}
	}
	c.Cmap = nil
	for _, m := range s.Cmap {
		if m.Supported {
			c.Cmap = append(c.Cmap, m)
		}
	}
	return c
}

// First is the content after trimming to the first n glyphs.
func (s *Sem) First(n int) *Sem {
	c := s.Clone()
	if n >= s.NumGlyphs {
		return c
	}
	c.NumGlyphs = n
	if c.PostN > n {
		c.PostN = n
	}
	if len(c.PostNames) > n {
		c.PostNames = c.PostNames[:n]
	}
	if len(c.Adv) > n {
		c.Adv, c.Lsb = c.Adv[:n], c.Lsb[:n]
	}
	if len(c.Glyphs) > n {
		c.Glyphs = c.Glyphs[:n]
	}
	c.Loca = nil
	for i, m := range c.Cmap {
		nm := map[uint32]uint16{}
		for k, g := range m.Map {
			if int(g) < n {
				nm[k] = g
			}
		}
		c.Cmap[i].Map = nm
	}
	return c
}

// Keep is the content after keeping only gids (and what they need).
func (s *Sem) Keep(gids []uint16) (*Sem, error) {
	set, err := s.Closure(gids)
	if err != nil {
		return nil, err
	}
	c := s.Clone()
	max := 0
	for g := range set {
		if int(g) > max {
			max = int(g)
		}
	}
	for i := range c.Glyphs {
		if !set[uint16(i)] {
			c.Glyphs[i] = nil
		}
	}
	c = c.First(max + 1)
	c.PostN, c.PostNames = -1, nil // glyph names are left out
	return c, nil
}

// Prune removes tables.
func (s *Sem) Prune(tags ...string) *Sem {
	c := s.Clone()
	for _, t := range tags {
		switch t {
		case "cmap":
			c.HasCmap, c.Cmap = false, nil
		case "name":
			c.HasName, c.Names, c.LangTags, c.NameFmt = false, nil, nil, 0
		case "post":
			c.Post, c.PostN, c.PostNames = nil, 0, nil
		default:
			continue
		}
		var ts []string
		for _, x := range c.Tags {
			if x != t {
				ts = append(ts, x)
			}
		}
		c.Tags = ts
	}
	return c
}

// Aspects of a comparison.
const (
	AMeta = 1 << iota
	AGlyphs
	AMetrics
	ACmap
	ANames
	ATags
	APost
	AAll = 1<<iota - 1
)

// Diff compares the content of a written font (got) with what it should be (exp).
func Diff(exp, got *Sem, aspects int) (out []string) {
	bad := func(f string, a ...interface{}) {
		if len(out) < 12 {
			out = append(out, fmt.Sprintf(f, a...))
		}
	}
	odd := func(table string) {
	next:
		for _, o := range got.Odd {
			for _, e := range exp.Odd {
				if e == o {
					continue next
				}
			}
			if strings.HasPrefix(o, table) {
				bad("%s, not so in the source", o)
			}
		}
	}
	if exp.NumGlyphs != got.NumGlyphs {
		bad("numGlyphs: %d, want %d", got.NumGlyphs, exp.NumGlyphs)
	}
	if aspects&ATags != 0 {
		if e, g := strings.Join(exp.Tags, " "), strings.Join(got.Tags, " "); e != g {
			bad("tables present: [%s], want [%s]", g, e)
		}
	}
	if aspects&AMeta != 0 {
		if exp.Version != got.Version {
			bad("sfnt version %08x, want %08x", got.Version, exp.Version)
		}
		cmp := func(n string, e, g []byte) {
			if !bytes.Equal(e, g) {
				i := 0
				for i < len(e) && i < len(g) && e[i] == g[i] {
					i++
				}
				bad("%s differs at byte %d (lengths want %d got %d): %x, want %x", n, i, len(e), len(g), clip(g, i), clip(e, i))
			}
		}
		cmp("head", exp.Head, got.Head)
		cmp("maxp", exp.Maxp, got.Maxp)
		cmp("hhea", exp.Hhea, got.Hhea)
		odd("hhea")
		cmp("OS/2", exp.OS2, got.OS2)
		cmp("cvt", exp.Cvt, got.Cvt)
		cmp("prep", exp.Prep, got.Prep)
		cmp("fpgm", exp.Fpgm, got.Fpgm)
		if exp.HasCvt != got.HasCvt || exp.HasPrep != got.HasPrep || exp.HasFpgm != got.HasFpgm {
			bad("presence of cvt/prep/fpgm: %v/%v/%v, want %v/%v/%v", got.HasCvt, got.HasPrep, got.HasFpgm, exp.HasCvt, exp.HasPrep, exp.HasFpgm)
		}
	}
	if aspects&(AMeta|APost) != 0 {
		if (exp.Post == nil) != (got.Post == nil) {
			bad("post present: %v, want %v", got.Post != nil, exp.Post != nil)
		} else if exp.Post != nil {
			if !bytes.Equal(exp.Post[4:], got.Post[4:]) {
				bad("post header fields %x, want %x", got.Post[4:], exp.Post[4:])
			}
			switch got.PostVer {
			case 0x00030000:
				if got.PostLen != 32 {
					bad("post 3.0 of %d bytes", got.PostLen)
				}
			case 0x00010000:
				if got.PostLen != 32 || got.NumGlyphs != 258 || exp.PostVer != 0x00010000 {
					bad("post 1.0 of %d bytes written for %d glyphs (source version %08x)", got.PostLen, got.NumGlyphs, exp.PostVer)
				}
			case 0x00020000, 0x00025000:
				if got.PostVer != exp.PostVer {
					bad("post version %08x, source %08x", got.PostVer, exp.PostVer)
				}
			default:
				bad("post version %08x", got.PostVer)
			}
		}
	}
	if aspects&AMetrics != 0 {
		if exp.HasHmtx != got.HasHmtx {
			bad("hmtx present: %v, want %v", got.HasHmtx, exp.HasHmtx)
		} else {
			for g := 0; g < len(exp.Adv) && g < len(got.Adv); g++ {
				if exp.Adv[g] != got.Adv[g] || exp.Lsb[g] != got.Lsb[g] {
					bad("glyph %d metrics (advance,lsb) = (%d,%d), want (%d,%d)", g, got.Adv[g], got.Lsb[g], exp.Adv[g], exp.Lsb[g])
				}
			}
			if len(exp.Adv) != len(got.Adv) {
				bad("metrics for %d glyphs, want %d", len(got.Adv), len(exp.Adv))
			}
		}
	}
	if aspects&AGlyphs != 0 {
		if exp.HasGlyf != got.HasGlyf {
			bad("glyf present: %v, want %v", got.HasGlyf, exp.HasGlyf)
		}
		if len(exp.Glyphs) != len(got.Glyphs) {
			bad("%d glyph descriptions, want %d", len(got.Glyphs), len(exp.Glyphs))
		}
		for g := 0; g < len(exp.Glyphs) && g < len(got.Glyphs); g++ {
			if !bytes.Equal(exp.Glyphs[g], got.Glyphs[g]) {
				bad("glyph %d: %d bytes of outline data %x, want %d bytes %x", g, len(got.Glyphs[g]), clip(got.Glyphs[g], 0), len(exp.Glyphs[g]), clip(exp.Glyphs[g], 0))
			}
		}
	}
	if aspects&ACmap != 0 {
		odd("cmap")
		out = append(out, DiffCmap(exp, got)...)
	}
	if aspects&ANames != 0 {
		if exp.HasName != got.HasName || exp.NameFmt != got.NameFmt {
			bad("name present/format %v/%d, want %v/%d", got.HasName, got.NameFmt, exp.HasName, exp.NameFmt)
		}
		if len(exp.Names) != len(got.Names) {
			bad("%d name records, want %d", len(got.Names), len(exp.Names))
		}
		for i := 0; i < len(exp.Names) && i < len(got.Names); i++ {
			e, g := exp.Names[i], got.Names[i]
			if e.Plat != g.Plat || e.Enc != g.Enc || e.Lang != g.Lang || e.ID != g.ID || !bytes.Equal(e.Data, g.Data) {
				bad("name record %d: %d/%d/%d/%d %x, want %d/%d/%d/%d %x", i, g.Plat, g.Enc, g.Lang, g.ID, clip(g.Data, 0), e.Plat, e.Enc, e.Lang, e.ID, clip(e.Data, 0))
			}
		}
		if len(exp.LangTags) != len(got.LangTags) {
			bad("%d language tags, want %d", len(got.LangTags), len(exp.LangTags))
		}
		for i := 0; i < len(exp.LangTags) && i < len(got.LangTags); i++ {
			if !bytes.Equal(exp.LangTags[i], got.LangTags[i]) {
				bad("language tag %d: %x, want %x", i, clip(got.LangTags[i], 0), clip(exp.LangTags[i], 0))
			}
		}
	}
	return
}

// DiffCmap compares the character maps.
func DiffCmap(exp, got *Sem) (out []string) {
	bad := func(f string, a ...interface{}) {
		if len(out) < 12 {
			out = append(out, fmt.Sprintf(f, a...))
		}
	}
	if exp.HasCmap != got.HasCmap {
		bad("cmap present: %v, want %v", got.HasCmap, exp.HasCmap)
	}
	if len(exp.Cmap) != len(got.Cmap) {
		bad("%d character maps (%s), want %d (%s)", len(got.Cmap), subs(got), len(exp.Cmap), subs(exp))
	}
	for i := 0; i < len(exp.Cmap) && i < len(got.Cmap); i++ {
		e, g := exp.Cmap[i], got.Cmap[i]
		if e.Plat != g.Plat || e.Enc != g.Enc || e.Lang != g.Lang {
			bad("character map %d is for platform/encoding/language %d/%d/%d, want %d/%d/%d", i, g.Plat, g.Enc, g.Lang, e.Plat, e.Enc, e.Lang)
			continue
		}
		for _, c := range sortedCodes(e.Map) {
			if g.Map[c] != e.Map[c] {
				bad("character map (%d,%d): code %#x -> glyph %d, want %d", e.Plat, e.Enc, c, g.Map[c], e.Map[c])
			}
		}
		for _, c := range sortedCodes(g.Map) {
			if _, has := e.Map[c]; !has {
				bad("character map (%d,%d): code %#x -> glyph %d, want unmapped", e.Plat, e.Enc, c, g.Map[c])
			}
		}
	}
	return
}

func subs(s *Sem) string {
	var b []string
	for _, m := range s.Cmap {
		b = append(b, fmt.Sprintf("%d,%d fmt %d", m.Plat, m.Enc, m.Format))
	}
	return strings.Join(b, "; ")
}

func sortedCodes(m map[uint32]uint16) []uint32 {
	k := make([]uint32, 0, len(m))
	for c := range m {
		k = append(k, c)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return k
}

func clip(b []byte, i int) []byte {
	if i > len(b) {
		i = len(b)
	}
	b = b[i:]
	if len(b) > 16 {
		b = b[:16]
	}
	return b
}
