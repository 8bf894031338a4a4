p='/tmp/ref2/'
def sub(f,a,b,cnt=1):
    s=open(p+f).read(); assert a in s,(f,a[:60]); s=s.replace(a,b,cnt); open(p+f,'w').write(s)
s=open(p+'validate.go').read()
i=s.index('	// Validate the font.\n'); 
s=s[:i]+'''	// Validate the font.
	if err := r.SeekTo(0); err != nil {
		return err
	}
	var buf bytes.Buffer
	if _, err := io.Copy(&buf, r.reader); err != nil {
		return err
	}
	data := buf.Bytes()

	headRec, ok := f.trec.trMap["head"]
	if !ok {
		logrus.Debug("head not set")
		return errRequiredField
	}
	adj := data[headRec.offset+8 : headRec.offset+12]
	saved := append([]byte(nil), adj...)
	for i := range adj {
		adj[i] = 0
	}
	if f.head.checksumAdjustment != 0xB1B0AFBA-sumOf(data) {
		return errors.New("file checksum mismatch")
	}
	copy(adj, saved)

	// Validate each table.
	for _, tr := range f.trec.list {
		start, end := int64(tr.offset), int64(tr.offset)+int64(tr.length)
		if tr.length == 0 {
			if tr.checksum != 0 {
				return errors.New("checksum incorrect")
			}
			continue
		}
		if end > int64(len(data)) {
			return io.ErrUnexpectedEOF
		}
		table := append([]byte(nil), data[start:end]...)
		if tr.tableTag.String() == "head" {
			if len(table) < 12 {
				return errors.New("head too short")
			}
			copy(table[8:12], []byte{0, 0, 0, 0})
		}
		if sumOf(table) != tr.checksum {
			logrus.Debug("Invalid checksum")
			return errors.New("checksum incorrect")
		}
	}

	return nil
}

// sumOf is the sum of the big endian 32 bit words of data.
func sumOf(data []byte) uint32 {
	w := byteWriter{}
	w.buffer.Write(data)
	return w.checksum()
}
'''
open(p+'validate.go','w').write(s)
# readers through one helper
import re
s=open(p+'byte_reader.go').read()
i=s.index('func (r byteReader) readUint8()')
print(s[i:i+2200])
s2=s[:i]
s2+='''func (r byteReader) word(n int) (uint64, error) {
	var b [8]byte
	if _, err := io.ReadFull(r.reader, b[8-n:]); err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil
}

func (r byteReader) readUint8() (uint8, error) {
	v, err := r.word(1)
	return uint8(v), err
}

func (r byteReader) readUint16() (uint16, error) {
	v, err := r.word(2)
	return uint16(v), err
}

func (r byteReader) readInt8() (int8, error) {
	v, err := r.word(1)
	return int8(v), err
}

func (r byteReader) readInt16() (int16, error) {
	v, err := r.word(2)
	return int16(v), err
}

func (r byteReader) readInt32() (int32, error) {
	v, err := r.word(4)
	return int32(v), err
}

func (r byteReader) readUint32() (uint32, error) {
	v, err := r.word(4)
	return uint32(v), err
}

'''+s[s.index('func (r byteReader) readTag()'):]
open(p+'byte_reader.go','w').write(s2)
# segmentation helper
s=open(p+'export.go').read()
a='''				charcodes := make([]CharCode, 0, len(subt.charcodeToGID))
				for cc, gid := range subt.charcodeToGID {
					if int(gid) >= numGlyphs {
						continue
					}
					charcodes = append(charcodes, cc)
				}
				sort.Slice(charcodes, func(i, j int) bool {
					return charcodes[i] < charcodes[j]
				})
'''
assert s.count(a)==2
s=s.replace(a,'				charcodes := subt.sortedCharcodes()\n')
b='''					j := i + 1
					for ; j < len(charcodes); j++ {
						if int(charcodes[j]-charcodes[i]) != j-i ||
							int(subt.charcodeToGID[charcodes[j]]-subt.charcodeToGID[charcodes[i]]) != j-i {
							break
						}
					}
'''
assert s.count(b)==2
s=s.replace(b,'					j := i + subt.runLength(charcodes[i:])\n')
s=s.replace('	"sort"\n','')
s=s.replace('''				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
				newt.entrySelector = uint16(math.Log2(float64(newt.searchRange) / 2.0))
''','''				for newt.searchRange = 2; int(newt.searchRange) <= segments; newt.searchRange *= 2 {
					newt.entrySelector++
				}
''')
s=s.replace('''	if f.cmap == nil {
		return nil
	}

	for _, key := range f.cmap.subtableKeys {
		subt := f.cmap.subtables[key]
		if subt.platformID == platformID && subt.encodingID == encodingID {
			return subt.cmap
		}
	}

	return nil''','''	var found map[rune]GlyphIndex
	if f.cmap != nil {
		for i := len(f.cmap.subtableKeys) - 1; i >= 0; i-- {
			st := f.cmap.subtables[f.cmap.subtableKeys[i]]
			if st.platformID == platformID && st.encodingID == encodingID {
				found = st.cmap
			}
		}
	}
	return found''')
open(p+'export.go','w').write(s)
s=open(p+'table_cmap.go').read()
a='''	var charcodes []CharCode
	for cc, gid := range t.charcodeToGID {
		if int(gid) < numGlyphs {
			limited.charcodeToGID[cc] = gid
			charcodes = append(charcodes, cc)
		}
	}
	sort.Slice(charcodes, func(i, j int) bool {
		return charcodes[i] < charcodes[j]
	})
'''
assert a in s
s=s.replace(a,'''	for cc, gid := range t.charcodeToGID {
		if int(gid) < numGlyphs {
			limited.charcodeToGID[cc] = gid
		}
	}
	charcodes := limited.sortedCharcodes()
''')
s=s.replace('''// cmapSubtableFormat0 represents format 0''','''// sortedCharcodes lists the mapped character codes in ascending order.
func (t *cmapSubtable) sortedCharcodes() []CharCode {
	list := make([]CharCode, 0, len(t.charcodeToGID))
	for cc := range t.charcodeToGID {
		list = append(list, cc)
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	return list
}

// runLength is the number of leading charcodes that are consecutive and map to consecutive glyphs.
func (t *cmapSubtable) runLength(charcodes []CharCode) int {
	n := 1
	for n < len(charcodes) && charcodes[n] == charcodes[n-1]+1 &&
		int(t.charcodeToGID[charcodes[n]]) == int(t.charcodeToGID[charcodes[n-1]])+1 {
		n++
	}
	return n
}

// cmapSubtableFormat0 represents format 0''',1)
open(p+'table_cmap.go','w').write(s)
s=open(p+'table_glyf.go').read()
i=s.index('	var components []GlyphIndex\n	gdesc :='); j=s.index('func (gd glyphDescription) IsSimple')
s=s[:i]+'''	raw := glyf.descs[int(gid)].raw
	if len(raw) == 0 {
		return nil, nil
	}
	parsed := glyphDescription{raw: raw}
	if err := parsed.parse(); err != nil {
		logrus.Debugf("ERROR parsing header: %v", err)
		return nil, err
	}
	if parsed.composite == nil {
		return nil, nil
	}
	components := make([]GlyphIndex, len(parsed.composite.components))
	for i := range components {
		components[i] = GlyphIndex(parsed.composite.components[i].glyphIndex)
	}
	return components, nil
}

'''+s[j:]
open(p+'table_glyf.go','w').write(s)
# names: strings shared by content
s=open(p+'table_name.go').read()
i=s.index('	var buf bytes.Buffer\n	var layout nameStorage'); j=s.index('	// Count and stringOffsets')
open(p+'table_name.go','w').write(s)
