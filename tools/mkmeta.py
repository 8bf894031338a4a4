#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, q, why, files, mech, obs, tech, level, note, hook=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs, tech=tech, level=level, note=note))

FONTS = "every TrueType font the library accepts: any number of glyphs, any mix of the tables and table versions it models, any table order, any layout the format allows"
OR = "Oracle: an independent reader of the font format in harness/sfnt (shares no code with the library). "
TR = "Trusts the reference reader and the generator's coverage of the format; bounded by the cases run."

p("P01", "Everything written is a well-formed font file that validates",
  "Whatever font is written — as parsed, or after any sequence of subset, prune and optimize operations — the bytes form a well-formed TrueType container: table records unique and in ascending order, tables inside the file, four-byte aligned, padded with zeros and not overlapping, right search fields, table checksums and checksum adjustment, counts that agree between tables. The library's own validation accepts the output, and writing to a file gives the same bytes as writing to a stream.",
  ["inputs", "histories"], FONTS + ", and every sequence of derivations applied to it before it is written",
  "The tests write back a handful of real fonts unchanged or cut by count and compare a few fields; container rules depend on table sizes modulo four, table sets and operation sequences that no sample covers.",
  ["font.go", "table_record.go", "table_offset.go", "byte_writer.go", "table_loca.go"],
  [("font.write: two-pass layout, offsets, checksums, adjustment", "font.go write"), ("flushAligned padding", "byte_writer.go"), ("record order and checksum", "table_record.go Set, writeTableRecords")],
  ["Font.Write, Font.WriteFile output bytes", "ValidateBytes, ValidateFile on it"],
  "output monitor: reference container checker over generated fonts and operation chains", "exploration", OR + TR)
p("P02", "Validation rejects every corruption its checksums can show",
  "If a font's bytes no longer agree with the checksum of any table in its directory, or with the checksum adjustment of the whole file, or if a table is cut off, validating it from memory or from a file reports an error. This holds wherever the damage is, including tables the library does not otherwise interpret, padding, trailing bytes, and damage that leaves all but one of the checksums right.",
  ["inputs", "fault_sequences"], "every well-formed font and every change to its bytes that some checksum can show",
  "The tests validate intact fonts and a couple of hand-made failures; the claim is over every position and pattern of damage.",
  ["validate.go", "byte_writer.go", "export.go"], [("recomputation of table checksums and of the adjustment", "validate.go validate"), ("checksum of words", "byte_writer.go checksum")],
  ["ValidateBytes, ValidateFile verdicts"],
  "fault injection into font bytes, verdict compared with a reference checksum monitor", "fault_enumeration", "Every single byte of small fonts is damaged in turn, other damage is sampled. " + OR + TR)
p("P03", "Validation accepts every intact font and changes nothing",
  "A font that can be parsed and whose checksums and checksum adjustment are right is accepted by validation, from memory and from a file, whatever its table order, table lengths, table gaps or unknown tables. Validation changes neither the bytes nor the file it is given.",
  ["inputs"], FONTS + "; also fonts with altered content whose checksums were made right",
  "The tests validate a few real fonts; false rejections depend on lengths, orders and tables they do not have.",
  ["validate.go", "export.go", "table_record.go"], [("validate", "validate.go"), ("ValidateBytes, ValidateFile", "export.go")],
  ["ValidateBytes, ValidateFile verdicts; input bytes before and after"],
  "verdict monitor: reference checksum computation over generated and altered fonts", "exploration", OR + TR)
p("P04", "Every well-formed TrueType font can be parsed",
  "A well-formed TrueType font with the tables the library requires is accepted by the parser, from a reader and from a file, with all of its glyphs available. Optional tables may be missing, empty, in any order or version of the specification, and unknown tables or unsupported character map formats are no reason to reject it.",
  ["inputs"], "every well-formed TrueType-outline font of the modelled tables, versions and layouts",
  "The tests parse under ten real fonts made by a few font editors.",
  ["export.go", "font.go", "table_*.go"], [("parseFont and the parser of each table", "font.go parseFont")], ["Parse, ParseFile results", "GetGlyphDataOffset"],
  "generative workload with acceptance monitor", "exploration", OR + TR)
p("P05", "Writing a font preserves its font-wide tables",
  "Parsing a font and writing it keeps, in content, every supported font-wide table: header, horizontal header, maximum profile, OS/2 metrics of every version, PostScript information of every version, control values and programs. Glyph names are the one thing that may be left out. No supported table appears or disappears.",
  ["inputs"], FONTS, "The tests compare a few fields of a few fonts; the claim is every field of every table version over all values.",
  ["table_head.go", "table_hhea.go", "table_maxp.go", "table_os2.go", "table_post.go", "table_cvt.go", "table_fpgm.go", "table_prep.go", "font.go"],
  [("parse and write of each table", "table_head.go, table_hhea.go, table_maxp.go, table_os2.go, table_post.go, table_cvt.go, table_fpgm.go, table_prep.go"), ("which tables are written", "font.go numTablesToWrite, write")],
  ["tables of the written bytes against those of the source"], "differential monitor: source and output read by a reference reader", "exploration", OR + TR)
p("P06", "Writing a font preserves every glyph outline",
  "Parsing a font and writing it keeps the description of every glyph byte for byte, for short and long location tables, empty glyphs and any slack between glyphs. The reported data range of each glyph is the one its location table gives, and glyph indices outside the font are refused.",
  ["inputs"], FONTS, "The tests look at a few glyphs of a few fonts.",
  ["table_glyf.go", "table_loca.go"], [("parseGlyf, writeGlyf", "table_glyf.go"), ("GetGlyphDataOffset, parseLoca, writeLoca", "table_loca.go")],
  ["GetGlyphDataOffset for every glyph", "glyf and loca of the written bytes"], "differential monitor: source and output read by a reference reader, glyph by glyph", "exploration", OR + TR)
p("P07", "Advance widths and side bearings survive writing and Optimize",
  "The advance width and left side bearing in effect for every glyph are the same in the source, in what is written, and after optimizing once or repeatedly. Optimizing never makes the font bigger.",
  ["inputs", "histories"], FONTS + "; any number of Optimize calls", "One test optimizes a small hand-made table; run lengths at the end of the table and the bearings of shortened entries vary over all fonts.",
  ["table_hmtx.go", "table_hhea.go", "export.go"], [("optimizeHmtx", "table_hmtx.go"), ("writeHmtx, writeHhea", "table_hmtx.go, table_hhea.go")], ["hmtx and hhea of the written bytes"],
  "differential monitor over effective glyph metrics", "exploration", OR + TR)
p("P08", "Character map queries answer exactly what the font's tables map",
  "For each platform and encoding the character map returned holds, for every character the font's first supported subtable of that kind maps, the glyph that subtable gives, and no other character with a glyph other than the missing glyph; without such a subtable it is empty. Where several codes stand for one character the first that leads to a glyph counts. This holds for formats 0, 4, 6 and 12 and the Unicode, Macintosh Roman, symbol, Shift-JIS, PRC and Big5 encodings, before and after writing.",
  ["inputs"], FONTS + "; every platform and encoding pair", "The tests check a few runes of a few fonts; the arithmetic of segments, deltas and ranges varies over all subtables.",
  ["table_cmap.go", "encoding.go", "export.go"], [("parseCmap and format parsers", "table_cmap.go"), ("rune decoders", "encoding.go"), ("GetCmap", "export.go")], ["Font.GetCmap"],
  "query monitor: reference decoding of the font's character maps", "exploration", OR + "Encodings other than those listed are not judged. " + TR)
p("P09", "Rune lookup follows the documented search order, rune by rune",
  "Looking up runes returns one glyph index per rune in the order given: that of the first of the searched character maps (Windows Unicode BMP, Macintosh Roman, Unicode BMP, Windows Unicode full) that maps the rune to a glyph, and the missing glyph when none does. The result for a rune does not depend on the other runes, on repetition, or on runes that are not characters, and the argument is left as it was.",
  ["inputs"], FONTS + "; every sequence of runes, valid or not", "The tests look up a few runes in a few fonts.",
  ["export.go", "table_cmap.go"], [("LookupRunes", "export.go")], ["Font.LookupRunes"], "query monitor: reference lookup over decoded character maps", "exploration", OR + TR)
p("P10", "Writing a font preserves its character maps",
  "Every supported character map subtable of a font is written with the same platform, encoding, language and mapping: each character code gives the same glyph in the output as in the source, whatever the format and layout, and the output's subtables are well-formed.",
  ["inputs"], FONTS, "The tests re-read a few real character maps and compare with what the library itself parsed.",
  ["table_cmap.go"], [("writeCmap and format writers", "table_cmap.go")], ["cmap of the written bytes"], "differential monitor: every code of every subtable read by a reference reader", "exploration", OR + "Subtables of formats the library does not support are dropped and not judged. " + TR)
p("P11", "Names are answered and written as the font stores them",
  "Name queries return the text of the font's name records — the first record for an identifier, and for every language and identifier — decoded by the record's platform and encoding, with unprintable characters made visible; identifiers without a record give nothing. Writing keeps every record's identifiers and bytes, and queries on the written font answer the same.",
  ["inputs"], FONTS + "; any name records, shared or overlapping storage, surrogates, odd lengths", "The tests check the names of three fonts.",
  ["table_name.go", "internal/strutils/encoding.go", "encoding.go"], [("GetNameByID, GetNameRecords, Decoded", "table_name.go"), ("parseNameTable, writeNameTable", "table_name.go")], ["Font.GetNameByID, Font.GetNameRecords", "name table of the written bytes"],
  "query and differential monitor over name records", "exploration", OR + "Macintosh scripts other than Roman are judged byte for byte only. " + TR)
p("P12", "Output is deterministic and rewriting it is a fixpoint",
  "Writing the same font repeatedly, or repeating the same parse and the same operations on the same bytes, gives identical bytes. Parsing an output and writing it again gives that output unchanged.",
  ["inputs", "histories"], FONTS + "; every sequence of derivations", "No test compares outputs; map iteration order and state left by a write vary between runs.",
  ["font.go", "table_cmap.go", "table_name.go", "table_record.go"], [("write", "font.go"), ("ordered emission of maps", "table_cmap.go, export.go")], ["bytes of repeated writes"], "repeat-and-compare monitor", "exploration", TR)
p("S13", "Subsetting by glyph keeps every requested glyph and all it is composed of",
  "A subset made from glyph indices holds, at the same index and with identical outline data, every requested glyph and every glyph reachable from it through composite references, however deep, shared or cyclic. The same holds for subsets of subsets.",
  ["inputs", "histories"], FONTS + "; every set of glyph indices, in any order, repeated", "The tests subset real fonts by count; composite graphs of depth, sharing and cycles do not occur.",
  ["export.go", "table_glyf.go"], [("SubsetKeepIndices closure", "export.go"), ("GetComponents", "table_glyf.go")], ["glyphs of the written subset"], "differential monitor with a reference component closure", "exploration", OR + TR)
p("S14", "A subset by glyph carries no outline that was not asked for",
  "In a subset made from glyph indices every glyph outside the requested ones and their components has an empty outline, and the glyph count is one more than the highest glyph needed (at most that of the source). The glyph data of the output is no larger than the outlines kept.",
  ["inputs"], FONTS + "; every set of glyph indices", "The tests check no removed glyph.",
  ["export.go", "table_loca.go", "table_glyf.go"], [("SubsetKeepIndices", "export.go")], ["glyf, loca, maxp of the written subset"], "differential monitor with a reference component closure", "exploration", OR + TR)
p("S15", "A subset by glyph or rune keeps metrics, maps, names and font-wide data",
  "In a subset by glyph or rune the glyphs below its glyph count keep their advance widths and bearings; each character map keeps its identity and exactly those of its mappings that lead to glyphs below that count; names and font-wide tables are those of the source, except that glyph names are dropped. No supported table is lost.",
  ["inputs", "histories"], FONTS + "; every set of glyphs or runes, subsets of subsets included", "The tests do not compare a subset's other tables with its source.",
  ["export.go", "font.go"], [("SubsetKeepIndices table copies", "export.go"), ("SubsetFirst table copies", "export.go")], ["all tables of the written subset"], "differential monitor against a reference model of subsetting", "exploration", OR + TR)
p("S16", "Subsetting to the first n glyphs keeps exactly those and what belongs to them",
  "The subset to the first n glyphs has min(n, all) glyphs with outlines, metrics and, for characters mapped to them, mappings identical to the source; nothing refers to a removed glyph in its character maps, and names and font-wide tables are kept. A count at or above the font's size gives the same output as the font itself, and a negative count is refused.",
  ["inputs", "histories"], FONTS + "; every n", "Tests use a few n on a few fonts and check little of the content.",
  ["export.go"], [("SubsetFirst", "export.go"), ("cmap restriction", "table_cmap.go limitedTo")], ["all tables of the written subset"], "differential monitor against a reference model of subsetting", "exploration", OR + TR)
p("S17", "Characters kept by a rune subset look and measure the same as in the source",
  "After subsetting to a set of runes, every one of those runes still maps to the glyph it had in the source, in the subset itself and after writing and parsing it, and that glyph and all it is composed of have the source's outline and metrics. Subsetting by runes equals subsetting by the glyphs those runes look up to.",
  ["inputs"], FONTS + "; every string of runes, mapped or not", "No test checks the outline of a kept character.",
  ["export.go", "table_cmap.go", "table_glyf.go"], [("SubsetKeepRunes", "export.go"), ("LookupRunes", "export.go")], ["LookupRunes on the subset", "glyphs of the written subset"], "end-to-end differential monitor per kept character", "exploration", OR + TR)
p("S18", "Operations on one font never change another; subset and write change none",
  "Subsetting, writing and querying leave the font they are called on as it was: every query, report and written output stays identical. Pruning or optimizing a font changes only that font, never the font it was derived from, fonts derived from it, or fonts parsed separately.",
  ["histories", "inputs"], "every sequence of subset, prune, optimize, write and query operations on any pool of fonts derived from one another",
  "Tests apply one operation to a fresh font; sharing between derived fonts shows only in histories.",
  ["export.go", "font.go", "table_glyf.go", "table_name.go", "table_hmtx.go"], [("copying of tables when deriving", "export.go SubsetKeepIndices, SubsetFirst"), ("write must not modify tables", "font.go write")], ["full observation of every font of the pool after every operation"],
  "history monitor: every uninvolved font re-observed after each operation of a random history", "exploration", OR + TR)
p("S19", "A derived font answers as its own output does",
  "What a font answers after subset, prune and optimize operations — character maps, lookups, glyph data ranges, names, table reports of header and metric tables — equals what the font parsed from its written output answers. Writing it does not alter the answers.",
  ["histories", "inputs"], FONTS + "; every sequence of derivations", "No test queries a derived font and its output together.",
  ["export.go", "font.go"], [("in-memory tables of derived fonts", "export.go"), ("write", "font.go")], ["all queries before writing, after writing, and on the re-parsed output"], "differential monitor: derived font against its re-parsed output", "exploration", TR)
p("P20", "Pruning removes exactly the named tables",
  "Pruning removes the named glyph-name, character-map and name tables from the font's output and answers, leaves everything else identical, ignores unknown names and repetition, and combines with subsetting in either order.",
  ["inputs", "histories"], FONTS + "; every list of table names; before or after subsetting", "No test prunes.",
  ["export.go", "font.go"], [("PruneTables", "export.go"), ("numTablesToWrite", "font.go")], ["tables of the written font", "queries"], "differential monitor against the source less the pruned tables", "exploration", OR + TR)
p("R21", "No input makes the library panic, hang or exhaust memory",
  "Whatever bytes are parsed or validated, the result is a font or an error. A font obtained from damaged bytes can be queried, reported on, subset, pruned, optimized and written with results or errors, never a panic or an endless loop, and the input bytes are left as they were.",
  ["inputs"], "every byte string, and every operation on a font parsed from it", "The tests parse good fonts only.",
  ["font.go", "table_*.go", "byte_reader.go", "export.go", "validate.go"], [("bounds and range checks of every parser", "table_*.go"), ("bounded reads", "byte_reader.go")], ["outcome of every exported operation"], "structure-aware mutation under crash, hang and memory monitors (worker processes with resource limits)", "exploration", "Go's bounds checks turn memory errors into panics, which the monitor reports; a hang is 45 s of CPU time in one case. Bounded by the cases run.")
p("R22", "Declared sizes without data behind them do not cost memory",
  "Parsing or validating a small file allocates no more than a modest multiple of its length plus a fixed amount, whatever counts, lengths and offsets it declares.",
  ["inputs"], "every small file", "No test measures allocation, and none has inflated counts.",
  ["byte_reader.go", "table_glyf.go", "table_cmap.go", "table_name.go", "table_post.go", "table_record.go"], [("readBytes in steps", "byte_reader.go"), ("checks of counts against lengths", "table_*.go")], ["bytes allocated by Parse and ValidateBytes"], "allocation monitor (runtime.MemStats) over inflated fonts", "exploration", "The bound is 8 MB plus 400 times the input length: fixed cost of a 16-bit count of objects is tolerated. Bounded by the cases run.")
p("R23", "A failing or unorthodox reader never yields a silently different font",
  "If any read or seek fails while a font is parsed, or the data ends early, parsing returns an error or a font that answers and writes exactly like the undamaged one. Readers that deliver data in pieces, with the end of file, or with empty reads in between make no difference. Files opened for parsing or validation are closed again, whatever the outcome.",
  ["fault_sequences", "inputs"], "every font, every point at which its source can fail or end, once or for good, and every lawful way of delivering the data", "The tests read from well-behaved files.",
  ["byte_reader.go", "font.go", "table_*.go"], [("error propagation of every read", "byte_reader.go and parsers"), ("full reads", "byte_reader.go readBytes")], ["Parse result, queries and output under faults"], "I/O fault injection at every read and seek operation, result compared with the fault-free run", "fault_enumeration", "Exhaustive over operations for small fonts, sampled for others. Bounded by the fonts tried.")
p("R24", "Write failures are reported, and the font can be written again",
  "If the destination fails after any number of bytes, writing reports an error, what was delivered is a prefix of the correct output, and the font afterwards writes correctly. Writing to a path that cannot be created or filled reports an error; writing over an existing file replaces it completely. No file stays open.",
  ["fault_sequences", "inputs"], "every font and every point at which its destination can fail", "No test has a failing destination.",
  ["byte_writer.go", "font.go", "export.go"], [("flush error propagation", "byte_writer.go"), ("WriteFile", "export.go")], ["Write, WriteFile results and delivered bytes"], "output fault injection at every byte offset, result and prefix monitored", "fault_enumeration", "Exhaustive over offsets for small outputs, sampled for others. Bounded by the fonts tried.")
p("R25", "Fonts can be read, subset and written by concurrent goroutines without races",
  "Querying, reporting on, subsetting and writing one font from several goroutines, while each also prunes, optimizes and writes fonts of its own derived from it or parsed separately, is free of data races and gives each goroutine the result it would get alone. The shared font is unchanged afterwards.",
  ["schedules", "inputs"], "every interleaving of such operations by any number of goroutines", "The tests are sequential.",
  ["export.go", "font.go", "table_glyf.go", "table_name.go", "table_head.go", "internal/strutils/pdfdocenc.go"], [("operations do not write to their receiver", "export.go, font.go write"), ("package-level tables read only after initialisation", "internal/strutils, encoding.go")], ["race detector reports; results per goroutine"], "Go race detector with injected delays, results compared with sequential runs", "exploration", "The race detector reports races of executed code whatever the order they happened in; interleavings are sampled.")
p("L26", "The command line tool does what the library does and reports every failure",
  "Each truecli command writes exactly the bytes the corresponding library operation gives, and its reports are the library's. It exits with a nonzero status when the font is missing, damaged or fails validation, an argument is missing or invalid, or the output cannot be written; it exits with zero otherwise, leaves no other file behind and never changes its input.",
  ["inputs", "configurations"], "every font file and every command line of the documented commands", "truecli has no tests.",
  ["truecli/cmd/*.go", "truecli/main.go"], [("commands", "truecli/cmd/readwrite.go, subset_gids.go, subset_runes.go, subset_simple.go, validate.go, info.go"), ("fatalf exit status", "truecli/cmd/root.go")], ["exit status, output files, standard output of truecli processes"], "process-level monitor: exit status, files and output against the library and reference reader", "exploration", OR + TR)
p("X27", "Text codecs are exact inverses of each other on everything they can express",
  "UTF-16 text and PDFDocEncoding are decoded and encoded by their definitions for every byte string and every Unicode text, surrogate pairs included; encoding then decoding gives the text back, less characters PDFDocEncoding does not have, and decoding then encoding gives back the bytes that mean something. Decoding never modifies memory beyond or within the slice given.",
  ["inputs"], "every byte string and every Unicode text", "The tests try a few strings.",
  ["internal/strutils/encoding.go", "internal/strutils/pdfdocenc.go"], [("tables and loops", "internal/strutils/encoding.go")], ["exported functions of internal/strutils"], "reference codec monitor; exhaustive over bytes, byte pairs and code points, sampled over texts", "exploration", "Single code points and byte pairs are exhaustive on every run; longer strings are sampled. U+0000 in PDFDocEncoding is not judged.")
p("I28", "Table reports state what the font contains",
  "The report on each table says whether the font has it, and the counts, sizes, table list, glyph names and character codes it prints are those of the font as parsed, after writing, and after pruning, optimizing and subsetting.",
  ["inputs", "histories"], FONTS + "; every sequence of derivations", "No test looks at the reports.",
  ["font.go", "table_record.go"], [("TableInfo, String", "font.go"), ("tableRecords.String", "table_record.go")], ["Font.TableInfo, Font.String"], "report monitor against a reference reader's counts", "exploration", OR + TR)

p("N29", "A parsed font stands on its own",
  "Once a font is parsed it no longer depends on where it came from: closing, overwriting, truncating, removing or moving its source, or parsing something else from the same reader, changes nothing in what the font and everything derived from it answer and write, and no operation reads or moves the source again. Lists given as arguments are left as they were, and they and the lists and name maps returned belong to the caller: overwriting them changes no font, and later calls do not change them.",
  ["histories", "inputs"], FONTS + "; every kind of source and what becomes of it after parsing; every sequence of operations",
  "The tests keep their sources intact and never change what they hand over or receive.",
  ["export.go", "byte_reader.go", "table_glyf.go", "table_name.go"], [("Font keeps its byteReader", "export.go Parse"), ("tables are copied out of the source while parsing", "byte_reader.go readBytes, readSlice"), ("answers built anew", "export.go LookupRunes, table_name.go GetNameRecords")], ["all queries, reports and output after the source is gone, against a control font; reads and seeks of the source after parsing"],
  "history monitor with spoilt sources and arguments, against a control font and the content model", "exploration", OR + "Maps returned by GetCmap are not altered: the library documents no copy there. " + TR)
p("R30", "Operations cost memory in proportion to the font",
  "Querying, reporting on, subsetting, optimizing, pruning and writing a font allocates no more than a modest multiple of the font's size and of the character maps it answers, plus a fixed amount, for well-formed fonts of any shape and for damaged fonts that were accepted.",
  ["inputs", "histories"], FONTS + ", and damaged fonts that still parse; every operation, also on derived fonts",
  "No test measures what an operation costs.",
  ["export.go", "font.go", "byte_writer.go", "table_glyf.go", "table_cmap.go"], [("closure over components visits each glyph once", "export.go SubsetKeepIndices"), ("character maps cut and rebuilt", "export.go SubsetFirst"), ("buffers while writing", "byte_writer.go")], ["bytes allocated by every operation"],
  "allocation monitor (runtime.MemStats) over every operation", "exploration", "The bound is 16 MB (damaged fonts 24 MB) plus 100 times the font's length plus 256 bytes per character answered, several times what the costliest operation needs. Bounded by the cases run.")

with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for x in P:
        o.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["st"],
            "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["obs"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": x["id"], "quick_cmd": "./check.sh %s quick" % x["id"], "thorough_cmd": "./check.sh %s thorough" % x["id"],
                   "evidence_file": "evidence/%s.json" % x["id"], "technique": x["tech"], "level": x["level"], "level_note": x["note"]} for x in P],
       "not_applicable": [],
       "notes": "No hooks in /repo: everything is observed at the exported interface. The monitors are built against /repo's working tree by every check (go.mod replace). `harness/verifmon replay FILE` (see DESIGN.md) runs one recorded case again."}
with open(os.path.join(here, "MANIFEST.json"), "w") as o:
    json.dump(man, o, indent=1, ensure_ascii=False)
    o.write("\n")
