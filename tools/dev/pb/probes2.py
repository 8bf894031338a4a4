probe('opt-signed-strip','P07',('table_hmtx.go','	for j >= 0 && f.hmtx.hMetrics[j].advanceWidth == lastWidth {','	for j > 0 && f.hmtx.hMetrics[j].advanceWidth == lastWidth {'))
probe('opt-zero-width','P07 S15',('table_hmtx.go','''	numStrip := i - j - 1
	if numStrip == 0 {''','''	numStrip := i - j - 1
	if lastWidth == 0 && j < 0 {
		j = 0
		lastWidth = f.hmtx.hMetrics[0].advanceWidth
	}
	if numStrip == 0 {'''))
probe('hmtx-lsb-cap','P07',('table_hmtx.go','	lsbLen := int(f.maxp.numGlyphs) - numberOfHMetrics','	lsbLen := int(int16(f.maxp.numGlyphs - f.hhea.numberOfHMetrics))'))
probe('fmt4-nochar-ffff','P08 P10',('table_cmap.go','		for code := int(c1); code <= int(c2); code++ {','		for code := int(c1); code <= int(c2) && code < 0xFFF0; code++ {'))
probe('fmt4-length-trust','P08 P04',('table_cmap.go','	glyphIDArrLen := int(st.length-uint16(2*8+2*4*segCount)) / 2','	glyphIDArrLen := (int(st.length) - (2*8 + 2*4*segCount)) / 2 &^ 1'))
probe('fmt0-runes','I28 S19',('table_cmap.go','''		if glyphID == 0 {
			continue
		}
		if _, has := cmap[r]; !has {
			// Avoid overwrite, if get same twice, use the earlier entry.
			cmap[r] = GlyphIndex(glyphID)
			runeToCharcodeBytes''','''		if glyphID == 0 {
			continue
		}
		if _, has := cmap[r]; !has || cmap[r] > GlyphIndex(glyphID) {
			// Avoid overwrite, if get same twice, use the earlier entry.
			cmap[r] = GlyphIndex(glyphID)
			runeToCharcodeBytes'''))
probe('fmt0-length','P10 P04',('table_cmap.go','	subt.length = 3*2 + 256\n','	if subt.length == 0 {\n		subt.length = 3*2 + 256\n	}\n'))
probe('enc-order','P08 P10',('table_cmap.go','	// Process the encoding subtables.\n','	sort.SliceStable(t.encodingRecords, func(i, j int) bool {\n		return t.encodingRecords[i].platformID < t.encodingRecords[j].platformID\n	})\n	// Process the encoding subtables.\n'))
probe('enc-order-off','P08 P10 S19 P12',('table_cmap.go','	// Process the encoding subtables.\n','	sort.SliceStable(t.encodingRecords, func(i, j int) bool {\n		return t.encodingRecords[i].offset < t.encodingRecords[j].offset\n	})\n	// Process the encoding subtables.\n'))
probe('comp-bytes-args','S13',('table_glyf.go','''			comp.argument1, comp.argument2 = uint16(arg1), uint16(arg2)''','''			comp.argument1, comp.argument2 = uint16(arg1), uint16(arg2)
			if !flag.IsSet(argsAreXYValues) && arg1 == 0 && arg2 == 0 {
				break // Nothing to match.
			}'''))
probe('comp-instr-strict','S13 P06 S15',('table_glyf.go','		if instructionLen <= 0 {','		if instructionLen <= 2 {'))
probe('comp-scale-precedence','S13',('table_glyf.go','		} else if flag.IsSet(weHaveATwoByTwo) {','		}\n		if flag.IsSet(weHaveATwoByTwo) {'))
probe('gd-off-last','P06',('table_loca.go','''	short := f.head.indexToLocFormat == 0
	if short {
		offset1 :=''','''	short := f.head.indexToLocFormat == 0
	if short && int(gid)+1 < len(f.loca.offsetsShort)-1 && f.loca.offsetsShort[gid+1] < f.loca.offsetsShort[gid] {
		return 0, 0, nil
	}
	if short {
		offset1 :='''))
probe('loca-long-31','P04 P06',('table_loca.go','		if len < 0 {','		if int32(len) < 0 || len > 1<<20 {'))
probe('tr-trim','P04 P05 P01',('table_record.go','	tr, has = f.trec.trMap[tableName]\n','	tr, has = f.trec.trMap[tableName]\n	if has && tr.length == 0 {\n		return tr, false, nil\n	}\n'))
probe('trmap-first','P04 P03',('table_record.go','		trs.trMap[rec.tableTag.String()] = &rec\n','		if _, has := trs.trMap[rec.tableTag.String()]; !has || rec.length > 0 {\n			trs.trMap[rec.tableTag.String()] = &rec\n		}\n'))
probe('hastable','I28',('table_record.go','	_, has := trs.trMap[strings.TrimSpace(tableName)]','	_, has := trs.trMap[tableName]'))
probe('names-first-lang','P11',('table_name.go','			nameRec[nr.nameID] = nr.Decoded()','			if _, has := nameRec[nr.nameID]; !has {\n				nameRec[nr.nameID] = nr.Decoded()\n			}'))
probe('name-enc10','P11',('table_name.go','nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {','nr.encodingID <= 1 || nr.encodingID == 10 || nr.encodingID == 3 {'))
probe('names-newline','P11',('table_name.go','''func makePrintable(str string) string {
	var buf bytes.Buffer
	for _, r := range str {
		if unicode.IsPrint(r) || r == '\\n' {''','''func makePrintable(str string) string {
	var buf bytes.Buffer
	for _, r := range str {
		if unicode.IsPrint(r) || r == '\\n' || unicode.IsSpace(r) {'''))
probe('names-graphic','P11',('table_name.go','''func makePrintable(str string) string {
	var buf bytes.Buffer
	for _, r := range str {
		if unicode.IsPrint(r) || r == '\\n' {''','''func makePrintable(str string) string {
	var buf bytes.Buffer
	for _, r := range str {
		if unicode.IsGraphic(r) || r == '\\n' {'''))
probe('langtag-count','P11 P04',('table_name.go','		stringOffset += 2 + offset16(langTagCount)*4','		if langTagCount > 0 {\n			stringOffset += 2 + offset16(langTagCount)*4\n		}'))
probe('validate-len','P02 P03',('validate.go','	for _, tr := range f.trec.list {','	for _, tr := range f.trec.trMap {'))
probe('validate-tailbytes','P02',('validate.go','		if f.head.checksumAdjustment != adjustment {','		if f.head.checksumAdjustment != adjustment && f.head.checksumAdjustment != 0 {'))
probe('write-odd-sum','P01 P12',('byte_writer.go','		val := binary.BigEndian.Uint32(dup)\n','		val := binary.BigEndian.Uint32(dup[:4])\n		if b-a == 1 {\n			val = uint32(data[a])\n		}\n'))
probe('post-post3','P05',('table_post.go','	if version != 0x00010000 || f.maxp == nil || f.maxp.numGlyphs != 258 {','	if version != 0x00010000 {'))
probe('post25-clamp','I28',('table_post.go','			nameIndex := i + int(t.offsets[i])','			nameIndex := int(uint8(i + int(t.offsets[i])))'))
probe('post-empty-name','I28',('table_post.go','			names = append(names, string(name))','			if numChars == 0 {\n				name = []byte(".notdef")\n			}\n			names = append(names, string(name))'))
probe('cli-gid-base','L26',('truecli/cmd/subset_gids.go','strconv.ParseUint(args[i], 10, 16)','strconv.ParseUint(args[i], 0, 16)'))
probe('cli-gid-16','L26',('truecli/cmd/subset_gids.go','strconv.ParseUint(args[i], 10, 16)','strconv.ParseUint(args[i], 10, 32)'))
probe('cli-info-order','L26',('truecli/cmd/info.go','					if gidMap[runes[i]] != gidMap[runes[j]] {','					if gidMap[runes[i]]/2 != gidMap[runes[j]]/2 {'))
probe('cli-rw-skipvalidate','L26',('truecli/cmd/readwrite.go','''			fmt.Printf("Invalid font: %+v\\n", err)
			panic(err)''','''			fmt.Printf("Invalid font: %+v\\n", err)'''))
probe('subset-maxgid-clamp','S14 S13',('export.go','	maxNeededNum := int(maxgid) + 1','	maxNeededNum := int(maxgid) + 1\n	if maxNeededNum < 4 {\n		maxNeededNum = 4\n	}'))
probe('subset-keep0','S14',('export.go','			if _, has := gidIncludedMap[GlyphIndex(i)]; has {','			if _, has := gidIncludedMap[GlyphIndex(i)]; has || len(newfnt.glyf.descs[i].raw) <= 12 {'))
probe('subset-err-swallow','S13 R21',('export.go','''				logrus.Debugf("Error getting components for %d", gid)
				return nil, err''','''				logrus.Debugf("Error getting components for %d", gid)
				continue'''))
probe('limited-unsorted','P12 S16 S19',('table_cmap.go','''	decoder := getCmapEncoding(t.platformID, t.encodingID).GetRuneDecoder()
	for _, cc := range charcodes {
		gid :=''','''	decoder := getCmapEncoding(t.platformID, t.encodingID).GetRuneDecoder()
	for cc := range limited.charcodeToGID {
		gid :='''))
probe('writefile-close','R24',('export.go','''	defer of.Close()

	return f.Write(of)''','''	defer of.Close()

	bo := bufio.NewWriter(of)
	err = f.Write(bo)
	bo.Flush()
	return err'''),('export.go','import (\n','import (\n	"bufio"\n'))
