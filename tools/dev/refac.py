import re
p='/tmp/ref/'
def sub(f,a,b,cnt=1):
    s=open(p+f).read(); assert a in s,(f,a[:60]); s=s.replace(a,b,cnt); open(p+f,'w').write(s)
# write as loop
s=open(p+'font.go').read()
i=s.index('		// maxp.\n		offset = startOffset'); j=s.index('	logrus.Trace("Write 3")')
s=s[:i]+'''		steps := []struct {
			tag  string
			has  bool
			emit func(*byteWriter) error
		}{
			{"maxp", true, f.writeMaxp},
			{"hhea", f.hhea != nil, f.writeHhea},
			{"hmtx", f.hmtx != nil, f.writeHmtx},
			{"loca", f.loca != nil, f.writeLoca},
			{"glyf", f.glyf != nil, f.writeGlyf},
			{"prep", f.prep != nil, f.writePrep},
			{"cvt", f.cvt != nil, f.writeCvt},
			{"fpgm", f.fpgm != nil, f.writeFpgm},
			{"name", f.name != nil, f.writeNameTable},
			{"OS/2", f.os2 != nil, f.writeOS2},
			{"post", f.post != nil, f.writePost},
			{"cmap", f.cmap != nil, f.writeCmap},
		}
		for _, st := range steps {
			if !st.has {
				continue
			}
			offset := startOffset + bufw.flushedLen
			if err := st.emit(bufw); err != nil {
				return err
			}
			trec.Set(st.tag, offset, bufw.bufferedLen(), bufw.checksum())
			if err := bufw.flushAligned(); err != nil {
				return err
			}
		}
	}
'''+s[j:]
i=s.index('	var num int\n'); j=s.index('	return num\n}')
s=s[:i]+'''	num := 0
	for _, has := range []bool{
		f.head != nil, f.maxp != nil, f.hhea != nil, f.hmtx != nil, f.loca != nil, f.glyf != nil,
		f.cvt != nil, f.fpgm != nil, f.prep != nil, f.name != nil, f.os2 != nil, f.post != nil, f.cmap != nil,
	} {
		if has {
			num++
		}
	}
'''+s[j:]
s=s.replace('''	buffer := bytes.NewBuffer(data)
	_, err = io.Copy(&w.buffer, buffer)
	return err''','''	return w.writeBytes(data)''').replace('	"io"\n','')
open(p+'font.go','w').write(s)
# checksum
s=open(p+'byte_writer.go').read()
i=s.index('	for i := 0; i < len(data); i += 4 {'); j=s.index('	return sum\n}')
s=s[:i]+'''	for i, b := range data {
		sum += uint32(b) << (24 - 8*uint(i%4))
	}

'''+s[j:]
s=s.replace('	"encoding/binary"\n','') if s.count('binary.')==0 else s
i=s.index('	for w.bufferedLen()%4 != 0 {'); j=s.index('	return w.flush()\n}')
s=s[:i]+'''	if pad := -w.bufferedLen() & 3; pad > 0 {
		if err := w.writeBytes(make([]byte, pad)); err != nil {
			return err
		}
	}
'''+s[j:]
open(p+'byte_writer.go','w').write(s)
# readSlice prealloc in the way many would write it
s=open(p+'byte_reader.go').read()
s=s.replace('''	case *[]uint16:
		for i := 0; i < length; i++ {
			val, err := r.readUint16()
			if err != nil {
				return err
			}
			*t = append(*t, val)
		}''','''	case *[]uint16:
		vals := make([]uint16, 0, length)
		for len(vals) < length {
			v, err := r.readUint16()
			if err != nil {
				return err
			}
			vals = append(vals, v)
		}
		*t = append(*t, vals...)''')
s=s.replace('''	case *[]offset32:
		for i := 0; i < length; i++ {
			val, err := r.readOffset32()
			if err != nil {
				return err
			}
			*t = append(*t, val)
		}''','''	case *[]offset32:
		*t = make([]offset32, length)
		for i := range *t {
			val, err := r.readOffset32()
			if err != nil {
				return err
			}
			(*t)[i] = val
		}''')
s=s.replace('''	offset, _ := r.rs.Seek(0, io.SeekCurrent)
	offset -= int64(r.reader.Buffered())
	return offset''','''	pos, _ := r.rs.Seek(0, io.SeekCurrent)
	return pos - int64(r.reader.Buffered())''')
s=s.replace('	r.reader = bufio.NewReader(r.rs)\n	return nil','	r.reader.Reset(r.rs)\n	return nil')
open(p+'byte_reader.go','w').write(s)
sub('table_hmtx.go','	numberOfHMetrics := int(f.hhea.numberOfHMetrics)\n','	numberOfHMetrics := int(f.hhea.numberOfHMetrics)\n	t.hMetrics = make([]longHorMetric, 0, numberOfHMetrics)\n')
# export
s=open(p+'export.go').read()
i=s.index('	toscan := make'); j=s.index('	newfnt.ot = &offsetTable{}')
s=s[:i]+'''	// Depth first over the components.
	stack := make([]GlyphIndex, 0, len(gidIncludedMap))
	for gid := range gidIncludedMap {
		stack = append(stack, gid)
	}
	for len(stack) > 0 {
		gid := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		components, err := f.glyf.GetComponents(gid)
		if err != nil {
			logrus.Debugf("Error getting components for %d", gid)
			return nil, err
		}
		for _, comp := range components {
			if _, has := gidIncludedMap[comp]; has {
				continue
			}
			gidIncludedMap[comp] = struct{}{}
			stack = append(stack, comp)
		}
	}

'''+s[j:]
i=s.index('	if f.font.prep != nil {'); j=s.index('	if f.font.post != nil {')
blk=s[i:j]
assert s.count(blk)==2
s=s.replace(blk,'	newfnt.copyShared(f.font)\n\n')
s=s.replace('''// SubsetFirst creates''','''// copyShared copies the tables that subsetting leaves as they are.
func (f *font) copyShared(src *font) {
'''+blk.replace('newfnt','f').replace('f.font.','src.')+'''}

// newLoca calculates the loca table for the current glyph descriptions.
func (f *font) newLoca(short bool) *locaTable {
	n := len(f.glyf.descs)
	t := &locaTable{}
	if short {
		t.offsetsShort = make([]offset16, n+1)
		for i, d := range f.glyf.descs {
			t.offsetsShort[i+1] = t.offsetsShort[i] + offset16(len(d.raw)/2)
		}
		return t
	}
	t.offsetsLong = make([]offset32, n+1)
	for i, d := range f.glyf.descs {
		t.offsetsLong[i+1] = t.offsetsLong[i] + offset32(len(d.raw))
	}
	return t
}

// SubsetFirst creates''',1)
while '		isShort := f.font.head' in s:
    i=s.index('		isShort := f.font.head'); j=s.index('	if',i); j=s.index('\n	newfnt.copyShared',i)
    s=s[:i]+'''		newfnt.loca = newfnt.newLoca(f.font.head.indexToLocFormat == 0)
	}
'''+s[j:]
s=s.replace('''	var indices []GlyphIndex
	for _, r := range runes {
		index := GlyphIndex(0)
		for _, cmap := range maps {
			ind, has := cmap[r]
			if has && ind != 0 {
				index = ind
				break
			}
		}
		indices = append(indices, index)
	}''','''	indices := make([]GlyphIndex, len(runes))
	for i, r := range runes {
		for _, cmap := range maps {
			if gid := cmap[r]; gid != 0 {
				indices[i] = gid
				break
			}
		}
	}''')
s=s.replace('''	bw := newByteWriter(w)
	err := f.font.write(bw)
	if err != nil {
		return err
	}
	return bw.flush()''','''	var out bytes.Buffer
	bw := newByteWriter(&out)
	if err := f.font.write(bw); err != nil {
		return err
	}
	if err := bw.flush(); err != nil {
		return err
	}
	n, err := w.Write(out.Bytes())
	if err == nil && n < out.Len() {
		err = io.ErrShortWrite
	}
	return err''')
open(p+'export.go','w').write(s)
