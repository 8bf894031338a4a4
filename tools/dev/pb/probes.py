probe('validate-skip-empty','P02',('validate.go','''		bw.buffer.Reset()

		if tr.offset''','''		bw.buffer.Reset()
		if tr.length == 0 {
			continue
		}

		if tr.offset'''))
probe('validate-31bit','P02',('validate.go','		if tr.checksum != checksum {','		if tr.checksum<<1 != checksum<<1 {'))
probe('validate-adj-31bit','P02',('validate.go','		if f.head.checksumAdjustment != adjustment {','		if f.head.checksumAdjustment<<1 != adjustment<<1 {'))
probe('break-at-instructions','S13',('table_glyf.go','''		composite.components = append(composite.components, comp)
		if !flag.IsSet(moreComponents) {''','''		composite.components = append(composite.components, comp)
		if instructionsFollow || !flag.IsSet(moreComponents) {'''))
probe('keep-runes-bmp','S17',('export.go','''	indices := f.LookupRunes(runes)
	return''','''	var bmp []rune
	for _, r := range runes {
		if r <= 0xFFFF {
			bmp = append(bmp, r)
		}
	}
	indices := f.LookupRunes(bmp)
	return'''))
probe('skip-error-ignored','R23',('table_hhea.go','''	err = r.Skip(4 * 2)
	if err != nil {
		return nil, err
	}
''','''	_ = r.Skip(4 * 2)
'''))
probe('info-hhea-hmtx','L26',('truecli/cmd/info.go','''		if showHhea {
			fmt.Print(fnt.TableInfo("hhea"))''','''		if showHhea {
			fmt.Print(fnt.TableInfo("hmtx"))'''))
probe('names-skip-empty','P11',('table_name.go','''		nameRec, ok := nameRecords[nr.languageID]
''','''		if len(nr.data) == 0 {
			continue
		}
		nameRec, ok := nameRecords[nr.languageID]
'''))
probe('names-trim-nul','P11',('internal/strutils/encoding.go','''	runes := utf16.Decode(chars)
	return runes''','''	for n > 0 && chars[n-1] == 0 {
		n--
	}
	runes := utf16.Decode(chars[:n])
	return runes'''))
probe('names-strip-bom','P11 X27',('internal/strutils/encoding.go','''	runes := utf16.Decode(chars)
	return runes''','''	if n > 0 && chars[0] == 0xFEFF {
		chars = chars[1:]
	}
	runes := utf16.Decode(chars)
	return runes'''))
probe('names-write-sorted','P11',('table_name.go','''	// Preprocess: Write the strings to a buffer in the layout of the font read, as they can share storage,''','''	sorted := append([]*nameRecord(nil), t.nameRecords...)
	sort.SliceStable(sorted, func(i, j int) bool {
		return sorted[i].platformID < sorted[j].platformID
	})
	ct := *t
	ct.nameRecords = sorted
	t = &ct

	// Preprocess: Write the strings to a buffer in the layout of the font read, as they can share storage,'''),('table_name.go','	"strconv"\n','	"sort"\n	"strconv"\n'))
probe('subset-fixedpitch','S15',('export.go','''		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post
	}

	if f.font.cmap != nil {
		newfnt.cmap = &cmapTable{}
		*newfnt.cmap = *f.font.cmap
''','''		newfnt.post = &postTable{}
		*newfnt.post = *f.font.post
		newfnt.post.minMemType42, newfnt.post.maxMemType42 = 0, 0
	}

	if f.font.cmap != nil {
		newfnt.cmap = &cmapTable{}
		*newfnt.cmap = *f.font.cmap
'''))
probe('validate-inplace','P03 R25 N29 R21',('export.go','''	r := bytes.NewReader(b)
	br := newByteReader(r)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}

	return fnt.validate(br)''','''	r := bytes.NewReader(b)
	br := newByteReader(r)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}
	if rec := fnt.trec.trMap["head"]; rec != nil {
		// Zero the adjustment while validating.
		copy(b[rec.offset+8:rec.offset+12], []byte{0, 0, 0, 0})
		defer binary.BigEndian.PutUint32(b[rec.offset+8:], fnt.head.checksumAdjustment)
	}

	return fnt.validate(br)'''),('export.go','	"bytes"\n	"errors"','	"bytes"\n	"encoding/binary"\n	"errors"'))
probe('fmt0-int8','P08',('table_cmap.go','''		if glyphID == 0 {
			continue
		}
''','''		if int8(glyphID) <= 0 {
			continue
		}
'''))
probe('fmt6-firstcode-wrap','P08 P10 S16',('export.go','''				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
				subt.ctx = t
				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) >= numGlyphs {
						t.glyphIDArray[i] = 0
					}
				}''','''				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
				for i := range t.glyphIDArray {
					if int(t.glyphIDArray[i]) >= numGlyphs {
						t.glyphIDArray = t.glyphIDArray[:i]
						t.entryCount = uint16(i)
						break
					}
				}
				subt.ctx = t'''))
probe('prep-fpgm-order','P05',('table_fpgm.go','''	t := &fpgmTable{}
''','''	if tr.length > 1<<15 {
		logrus.Debug("fpgm too long")
		return nil, nil
	}
	t := &fpgmTable{}
'''))
probe('loca-tail','P06 P04',('table_glyf.go','''		if gdOffset > int64(tr.length) {''','''		if gdLen > 0 && gdOffset+gdLen > int64(tr.length) {'''),)
probe('mac-enc','P08',('encoding.go','''	case platformIDMacintosh:
		return cmapEncodingMacRoman''','''	case platformIDMacintosh:
		if encodingID == 1 {
			return cmapEncodingShiftJIS
		}
		return cmapEncodingMacRoman'''))
probe('symbol-f000','P08 P09',('encoding.go','''	// TODO(gunnsth): Benchmark utf8.DecodeRune vs string().
	r, _ := utf8.DecodeRune(decoded)
''','''	// TODO(gunnsth): Benchmark utf8.DecodeRune vs string().
	r, _ := utf8.DecodeRune(decoded)
	if r == 0xF8FF {
		r = 0xF020
	}
'''))
probe('notdef-clamp','S13',('table_glyf.go','''		components = append(components, GlyphIndex(comp.glyphIndex))
''','''		if comp.glyphIndex > 0x7fff {
			continue
		}
		components = append(components, GlyphIndex(comp.glyphIndex))
'''))
probe('subset-nocmap-head','S15 S16',('export.go','''		if newfnt.hhea.numberOfHMetrics > uint16(numGlyphs) {''','''		if newfnt.hhea.advanceWidthMax > 0 && newfnt.cmap == nil && f.font.cmap == nil {
			newfnt.hhea.advanceWidthMax = 0
		}
		if newfnt.hhea.numberOfHMetrics > uint16(numGlyphs) {'''))
probe('os2-v3','P05',('table_os2.go','''	if t.version < 5 {
		return t, nil
	}

	// version >= 5.
	err''','''	if t.version <= 5 {
		return t, nil
	}

	// version >= 5.
	err'''))
probe('maxp-v1.1','P04',('table_maxp.go','	if t.version < 0x00010000 {\n		logrus.Debug("Range check error")\n		return nil','	if t.version != 0x00010000 {\n		logrus.Debug("Range check error")\n		return nil'))
probe('fmt12-reserved','P10',('table_cmap.go','	err := w.write(format, subt.reserved, subt.length, subt.language, subt.numGroups)','	err := w.write(format, subt.reserved, subt.length, subt.language&0xffffff, subt.numGroups)'))
probe('getcomp-simple-neg','S13',('table_glyf.go','	return gd.header.numberOfContours > -1','	return gd.header.numberOfContours > -2'),)
probe('toscan-limit','S13',('export.go','	for len(toscan) > 0 {','	for len(toscan) > 0 && len(gidIncludedMap) <= len(f.glyf.descs) {'))
probe('write-partial','R24',('byte_writer.go','''	n, err := w.w.Write(b)
	if err != nil {
		return err
	}
	w.flushedLen += int64(n)
''','''	for len(b) > 0 {
		k := len(b)
		if k > 1<<15 {
			k = 1 << 15
		}
		n, err := w.w.Write(b[:k])
		if err != nil && n < k {
			return err
		}
		w.flushedLen += int64(n)
		b = b[k:]
	}
'''))
probe('writefile-trunc','R24',('export.go','	of, err := os.Create(outPath)','	of, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE, 0644)'))
probe('parsefile-leak','R23',('export.go','''	br := newByteReader(f)
	fnt, err := parseFont(br)
	if err != nil {
		return err
	}

	return fnt.validate(br)''','''	br := newByteReader(f)
	fnt, err := parseFont(br)
	if err != nil {
		f, _ = os.Open(filePath)
		return err
	}

	return fnt.validate(br)'''))
probe('lookup-neg','P09',('export.go','''		for _, cmap := range maps {
			ind, has := cmap[r]''','''		if len(indices) > 0 && r == runes[len(indices)-1] && r == 0 {
			continue
		}
		for _, cmap := range maps {
			ind, has := cmap[r]'''))
probe('hhea-reserved','P05 P01',('table_hhea.go','	return w.write(t.metricDataFormat, t.numberOfHMetrics)','	return w.write(reserved, t.numberOfHMetrics)'))
probe('first-trec-shared','S18 I28',('export.go','''	newfnt.trec = &tableRecords{}
	*newfnt.trec = *f.font.trec

	if f.font.head != nil {
		newfnt.head = &headTable{}
		*newfnt.head = *f.font.head
	}

	if f.font.maxp != nil {
		newfnt.maxp = &maxpTable{}
		*newfnt.maxp = *f.font.maxp
		newfnt''','''	newfnt.trec = &tableRecords{}
	*newfnt.trec = *f.font.trec

	newfnt.head = f.font.head

	if f.font.maxp != nil {
		newfnt.maxp = &maxpTable{}
		*newfnt.maxp = *f.font.maxp
		newfnt'''))
