import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
RW=["src/base/write/mod.rs","src/base/write/entry_whole.rs","src/base/write/entry_stream.rs"]
RD=["src/base/read/mod.rs","src/base/read/seek.rs","src/base/read/mem.rs","src/entry/mod.rs"]
p("P01","Whole-entry write then read returns exactly what was written",
 "For every sequence of entries written from complete data and then closed, opening the resulting archive with the seekable or in-memory reader lists the same entries in the same order, each with the given name, comment, compression method, attributes, timestamp, CRC-32 and sizes, plus the given archive comment. Reading each listed entry, with or without CRC verification, returns exactly the original data.",
 ["inputs","histories","configurations"],"all entry metadata, data contents, compression methods, entry counts and archive comments within the stated bounds",
 "The tests write a handful of fixed names and contents; none covers arbitrary metadata values, empty data, several entries or the compressed paths over all byte values.",
 RW+RD,[("whole-entry writer","src/base/write/entry_whole.rs write"),("central directory emission","src/base/write/mod.rs close"),("central directory parsing","src/base/read/mod.rs cd_record"),("entry data positioning","src/entry/mod.rs seek_to_data_offset")],
 ["ZipFileWriter::write_entry_whole + close, then mem/seek ZipFileReader"])
p("P02","Streamed write then read returns exactly what was written, for any chunking",
 "For every sequence of entries written by streaming their data in any number of writes of any sizes and then closed, the seekable and in-memory readers return the same entries with the given metadata, the CRC-32 and sizes of the data actually streamed, and exactly the streamed bytes in order. The archive does not otherwise depend on how the data was split into writes or on intermediate flushes.",
 ["inputs","histories","configurations"],"all data contents, all splits into writes and flushes, both zip64 modes, all methods, mixed with whole entries, within the stated bounds",
 "The tests stream one fixed buffer in one or two writes and never compare metadata, splits or the non-zip64 mode over all contents.",
 RW+RD,[("streaming entry writer","src/base/write/entry_stream.rs"),("offset tracking","src/base/write/io/offset.rs"),("compressing writer","src/base/write/compressed_writer.rs")],
 ["ZipFileWriter::write_entry_stream, EntryStreamWriter::close, then readers"])
p("P03","Every archive produced is structurally valid ZIP",
 "Every archive the writer completes consists only of well-formed local headers, entry data, data descriptors, central directory records and end records, in that order and without gaps, where every signature, offset, length, count, size, CRC-32, flag and version field is correct for the bytes actually present. Local header, data descriptor and central record of an entry agree with each other.",
 ["inputs","histories","configurations"],"all entry metadata, contents, write modes and entry sequences within the stated bounds, judged by an independent strict parser",
 "The tests only read archives back with this crate or spot-check with another reader that tolerates wrong local headers, descriptors and lengths; wrong fields nobody reads go unnoticed.",
 RW+["src/spec/parse.rs","src/spec/extra_field.rs","src/spec/version.rs"],[("header serialisation","src/spec/parse.rs as_slice"),("extra field serialisation","src/spec/extra_field.rs"),("central directory emission","src/base/write/mod.rs close")],
 ["bytes handed to the underlying writer"])
p("P04","Sizes, offsets and counts beyond the classic fields are never truncated",
 "When an entry's size, an entry's position, the position of the central directory or the number of entries does not fit the classic 32-bit and 16-bit fields, the writer records the true 64-bit value in the ZIP64 structures with the classic field saturated, so a conforming reader recovers every true value. If ZIP64 was forbidden, the write fails with an error instead, and no archive with a wrapped or saturated value is completed.",
 ["inputs","histories","configurations"],"all data lengths and positions up to 2^40 and entry counts around 65535, for whole and streamed entries, with ZIP64 automatic, forced and forbidden",
 "Tests cannot write every multi-gigabyte length; they sample one length past the limit with a zero-filled buffer and never the boundary values or offset-only cases.",
 RW+["src/spec/extra_field.rs","src/spec/consts.rs"],[("size promotion","src/base/write/entry_whole.rs enforce_zip64_sizes"),("offset promotion","src/base/write/entry_whole.rs enforce_zip64_offset"),("end record promotion","src/base/write/mod.rs close"),("stream promotion","src/base/write/entry_stream.rs close")],
 ["bytes handed to the underlying writer"])
p("P05","Archive metadata reported by the reader is exactly what the bytes say",
 "For every well-formed archive, the seekable and in-memory readers report each central directory record's name, comment, method, CRC-32, compressed and uncompressed size, timestamp, attributes, local header position and header size exactly as encoded, taking the 64-bit value from the ZIP64 extra field for precisely those fields whose classic value is saturated. The ZIP64 end records override the classic end record only for saturated fields.",
 ["inputs"],"all field values of hand-built archives (every byte symbolic) within the stated counts and lengths",
 "The tests open a few fixed archives; a misread bit, byte order or ZIP64 override rule for other values is never exercised.",
 ["src/base/read/mod.rs","src/base/read/io/combined_record.rs","src/spec/parse.rs","src/spec/extra_field.rs"],[("record decoding","src/spec/parse.rs From<[u8; 42]>"),("zip64 override","src/base/read/mod.rs get_combined_sizes"),("end record combination","src/base/read/io/combined_record.rs combine")],
 ["ZipFileReader::file().entries()"])
p("P06","Opening and reading arbitrary bytes never panics, hangs or over-allocates",
 "For every byte sequence given as an archive to the seekable or in-memory reader, opening it, listing its entries and reading any entry finishes with a value or an error. It never panics, never loops forever, and never allocates memory out of proportion to the input.",
 ["inputs"],"all byte strings of the stated lengths, plus archives with every header byte arbitrary",
 "Tests feed valid archives only; robustness is a claim over all malformed inputs.",
 RD+["src/base/read/io/locator.rs","src/spec/parse.rs","src/spec/extra_field.rs"],[("record parsing","src/spec/parse.rs"),("extra field bounds checks","src/spec/parse.rs parse_extra_fields"),("end record search","src/base/read/io/locator.rs")],
 ["seek/mem ZipFileReader::new and entry readers"])
p("P07","Stream-reading arbitrary bytes never panics, hangs or over-allocates",
 "For every byte sequence given to the non-seekable reader, iterating over its entries while reading, finishing or skipping each one ends with a value or an error. It never panics, never loops forever, and never allocates memory out of proportion to the input.",
 ["inputs"],"all byte strings of the stated lengths, plus local headers with every byte arbitrary",
 "Tests feed valid archives only; robustness is a claim over all malformed inputs.",
 ["src/base/read/stream.rs","src/base/read/mod.rs","src/spec/parse.rs"],[("local header parsing","src/base/read/mod.rs lfh"),("descriptor consumption","src/base/read/stream.rs consume_data_descriptor")],
 ["stream ZipFileReader"])
p("P08","The end of central directory record is found wherever a valid archive puts it",
 "For every archive whose trailing comment of up to 65535 bytes contains no end-record signature, the reader finds the end record regardless of comment length, comment contents and preceding data, and reports the complete comment. Inputs without an end record in that range are rejected with an error.",
 ["inputs"],"all comment contents and the comment lengths and positions around every internal buffer boundary within the stated bounds",
 "Tests cover one empty archive, one maximal comment and one buffer boundary.",
 ["src/base/read/io/locator.rs","src/base/read/mod.rs"],[("backwards search","src/base/read/io/locator.rs eocdr")],
 ["mem/seek ZipFileReader::new, file().comment()"])
p("P09","Reading an entry yields exactly its stored bytes, and CRC checking is exact",
 "An entry reader starts right after that entry's own local header, name and extra data as measured by the local header itself, and delivers exactly the entry's compressed-size bytes (decoded by the entry's method), nothing more and nothing from elsewhere. A CRC-verified read succeeds if and only if the data read has the recorded CRC-32, and the exposed running hash is the CRC-32 of the bytes read.",
 ["inputs"],"all contents, recorded CRCs, local header lengths that differ from the central ones, entry positions, and read buffer sizes within the stated bounds",
 "Tests read a few well-formed entries whole; none has local and central lengths that differ, corrupt data or an arbitrary recorded CRC.",
 ["src/entry/mod.rs","src/base/read/io/entry.rs","src/base/read/io/hashed.rs","src/base/read/io/compressed.rs","src/base/read/seek.rs","src/base/read/mem.rs"],[("data positioning","src/entry/mod.rs seek_to_data_offset"),("length limit","src/base/read/io/entry.rs new_with_owned/new_with_borrow"),("hashing","src/base/read/io/hashed.rs"),("verification","src/base/read/io/entry.rs read_to_end_checked")],
 ["ZipEntryReader reads, read_to_end_checked, compute_hash"])
p("P10","A truncated archive is reported as an error, never as a shorter archive",
 "For every proper prefix of an archive whose names, comments and contents contain no record signatures, the stream reader never reports a name, an extra field or an end of archive that the full archive does not contain, and the seekable and in-memory readers refuse to open it. An archive cut inside its end comment or its directory's variable-length data is an error, not a shortened value.",
 ["inputs","crash_points"],"all cut points of archives with symbolic contents within the stated bounds",
 "No test truncates an archive.",
 ["src/base/read/io/mod.rs","src/base/read/mod.rs","src/base/read/stream.rs","src/base/read/io/locator.rs"],[("exact-length reads","src/base/read/io/mod.rs read_bytes"),("header reads","src/spec/parse.rs from_reader")],
 ["ZipFileReader::new, stream next/skip"])
p("P11","Read results do not depend on how the source delivers its bytes",
 "For every archive, the entries, metadata, data and errors obtained from the seekable and stream readers are the same whichever way the underlying source splits its bytes into short reads and whenever it reports that it is not ready yet. No schedule loses, repeats or reorders bytes or leaves the reader waiting forever.",
 ["schedules","inputs"],"all placements of not-ready results and short reads up to the stated budget, over symbolic contents",
 "Tests read from in-memory cursors that are always ready and always fill the buffer.",
 ["src/base/read/io/hashed.rs","src/base/read/io/owned.rs","src/base/read/io/compressed.rs","src/base/read/io/locator.rs","src/base/read/mod.rs","src/base/read/stream.rs"],[("poll forwarding","src/base/read/io/*.rs poll_read/poll_fill_buf"),("fill loop","src/base/read/io/locator.rs eocdr")],
 ["reader results under a scheduled source"])
p("P12","Archive bytes do not depend on how the sink accepts them",
 "For every sequence of writes, the bytes of the finished archive are the same whichever way the underlying sink splits them into short writes and whenever it reports that it is not ready yet. No schedule loses, repeats or reorders bytes, and recorded offsets, sizes and CRC-32 values stay those of the bytes really accepted.",
 ["schedules","inputs"],"all placements of not-ready results and short writes up to the stated budget, for whole and streamed entries",
 "Tests write into in-memory buffers that are always ready and accept everything.",
 ["src/base/write/io/offset.rs","src/base/write/compressed_writer.rs","src/base/write/entry_stream.rs","src/base/write/mod.rs"],[("offset accounting","src/base/write/io/offset.rs poll_write"),("hash accounting","src/base/write/entry_stream.rs poll_write")],
 ["bytes accepted by a scheduled sink"])
p("P13","I/O failures are reported, never swallowed",
 "Whenever the underlying source or sink fails an operation, the reading or writing call in progress returns an error carrying that failure. No read returns data as complete and no archive is reported as finished when an underlying operation failed or a sink stopped accepting bytes.",
 ["fault_sequences","inputs"],"a failure injected at every operation of the modelled reads and writes",
 "No test injects an I/O failure.",
 RW+RD+["src/base/read/stream.rs","src/base/write/compressed_writer.rs"],[("error conversion","src/error.rs UpstreamReadError"),("error propagation","? on every await in src/base")],
 ["results of every public call under fault injection"])
p("P14","The stream reader walks every entry in order and stops at the directory",
 "For every well-formed archive, the stream reader delivers each local entry once, in file order, with the metadata its local header encodes and exactly its data, whether earlier entries were read, finished or skipped, and reports the end at the central directory, also for an archive without entries. Finishing an entry whose data has not been read completely is refused with an error.",
 ["inputs","histories"],"all contents and read/finish/skip histories within the stated bounds",
 "Tests stream a few fixed archives reading everything; skipping, partial reads and mixed histories are not covered.",
 ["src/base/read/stream.rs","src/base/read/mod.rs"],[("entry iteration","src/base/read/stream.rs next_with_entry/next_without_entry"),("completion","src/base/read/stream.rs done/skip")],
 ["stream ZipFileReader"])
p("P15","Data descriptors are consumed exactly; unstreamable entries are refused",
 "After a streamed compressed entry that has a data descriptor, with or without its optional signature and with 4-byte sizes, or 8-byte sizes if the local header has a ZIP64 field, the stream reader resumes exactly at the next header. Entries that cannot be streamed safely (uncompressed data with a data descriptor, encrypted data) are refused with an unsupported-feature error.",
 ["inputs"],"all flag words, descriptor contents and following headers within the stated bounds",
 "Tests use one archive; the descriptor variants and the refusals are untested.",
 ["src/base/read/stream.rs","src/base/read/mod.rs","src/spec/parse.rs"],[("descriptor consumption","src/base/read/stream.rs consume_data_descriptor"),("refusals","src/base/read/mod.rs lfh"),("flag decoding","src/spec/parse.rs From<u16> for GeneralPurposeFlag")],
 ["stream ZipFileReader"])
p("P16","Text is only presented as UTF-8 when it is valid, and encodings are honoured",
 "A name or comment is offered as text only if its bytes are valid UTF-8; otherwise its raw bytes are available unchanged. When reading, the UTF-8 flag, a Unicode extra field whose checksum matches the raw bytes, and pure ASCII are the only grounds for treating a name or comment as text, and when writing, non-empty names and comments with an alternative encoding read back with both forms intact.",
 ["inputs"],"all byte contents, flag values and Unicode extra fields within the stated lengths",
 "Tests use ASCII names only.",
 ["src/string.rs","src/base/read/mod.rs","src/base/write/entry_whole.rs","src/base/write/entry_stream.rs","src/spec/extra_field.rs"],[("validation","src/string.rs new"),("detection","src/base/read/mod.rs detect_filename/detect_comment"),("Unicode extra fields","src/base/write/entry_whole.rs utf8_without_alternative")],
 ["ZipString accessors of read entries; ZipString constructors"])
p("P17","Over-long names, comments and extra data are refused, not truncated",
 "Writing an entry whose name, comment or combined extra data exceeds 65535 bytes, or finishing an archive whose comment exceeds 65535 bytes, fails with the corresponding error. Every length up to that limit is accepted and recorded exactly.",
 ["inputs"],"all lengths around the limit for names, comments, extra data and archive comments, whole and streamed",
 "No test uses long strings.",
 RW,[("length conversions","src/base/write/entry_whole.rs write"),("length conversions","src/base/write/entry_stream.rs"),("archive comment","src/base/write/mod.rs close")],
 ["write calls' results"])
p("P18","Timestamps convert exactly within DOS range and never corrupt other fields",
 "For every date and time within the DOS range (years 1980 to 2107, two-second resolution), building a timestamp and reading its components back gives the same values, in any order of setting and when components are set again. Conversion from and to calendar date-times agrees component by component, and no input to the builder panics or disturbs a component other than the one being set.",
 ["inputs","histories"],"all component values (full integer ranges) and setter orders",
 "Tests check one date.",
 ["src/date/mod.rs","src/date/builder.rs"],[("component setters","src/date/builder.rs"),("component getters","src/date/mod.rs")],
 ["ZipDateTimeBuilder, ZipDateTime, chrono conversions"])
p("P19","Unsupported or inconsistent archives are refused with the right error",
 "Split or spanned archives, compression methods this build does not support, records with a wrong signature and entry indices that do not exist are each refused with the corresponding error. Supported archives are never refused for these reasons.",
 ["inputs"],"all disk numbers, entry counts, method ids, signatures and indices",
 "Tests never open such archives.",
 ["src/base/read/mod.rs","src/spec/compression.rs","src/utils.rs","src/entry/mod.rs"],[("spanning check","src/base/read/mod.rs file"),("method check","src/spec/compression.rs try_from"),("signature checks","src/utils.rs assert_signature")],
 ["ZipFileReader::new, reader_with_entry/reader_without_entry"])
p("P20","Extra fields survive reading an entry and writing it again",
 "Extra fields of an entry read from an archive are written back byte for byte, in order, when that entry is written into another archive, with every recorded length matching the bytes that follow. Only ZIP64 and Unicode fields that the writer itself must regenerate may differ, and no stale or duplicate ZIP64 field is left behind.",
 ["inputs","histories"],"all extra field ids, lengths and contents within the stated bounds",
 "No test copies entries with extra fields between archives.",
 ["src/spec/extra_field.rs","src/spec/parse.rs","src/spec/header.rs","src/base/write/entry_whole.rs","src/base/write/entry_stream.rs"],[("parsing","src/spec/parse.rs parse_extra_fields"),("serialisation","src/spec/extra_field.rs as_bytes/count_bytes")],
 ["bytes handed to the underlying writer after a read/rewrite"])
p("P21","Precompressed data and its declared metadata are written verbatim",
 "Writing already-compressed data, whole or streamed, stores exactly the given bytes and the declared method, CRC-32 and uncompressed size, with the compressed size being the number of bytes given. Reading the entry decodes those bytes with the declared method and verifies against the declared CRC-32.",
 ["inputs","configurations"],"all data bytes, declared sizes and CRCs and methods within the stated bounds",
 "One test writes one precompressed entry.",
 ["src/base/write/entry_whole.rs","src/base/write/entry_stream.rs","src/base/write/compressed_writer.rs"],[("bypass","src/base/write/entry_whole.rs from_precompressed"),("bypass","src/base/write/entry_stream.rs from_raw_precompressed")],
 ["write_entry_whole_precompressed, write_entry_stream_precompressed, then readers"])
p("P22","Entry reads are independent of order, repetition and interleaving",
 "Entries of an open archive can be read in any order, partially, repeatedly and through clones of the in-memory reader with reads interleaved at any point, and each read delivers the same bytes as if it were the only one. Using a seekable reader for one entry never changes what a later entry read returns.",
 ["schedules","histories"],"all interleavings and orders of reads of the stated number of entries",
 "Tests read entries once, in order.",
 ["src/base/read/mem.rs","src/base/read/seek.rs","src/entry/mod.rs"],[("per-read cursor","src/base/read/mem.rs reader_with_entry"),("absolute positioning","src/entry/mod.rs seek_to_data_offset")],
 ["mem/seek entry readers"])
p("P23","The tokio interface behaves exactly like the base interface",
 "For every input, the tokio variants of the writer, seekable reader and stream reader produce the same archives, entries, data and errors as the base variants over the same bytes. This holds for every schedule of readiness of the tokio source or sink.",
 ["inputs","schedules"],"all contents and schedules within the stated bounds",
 "One test uses a tokio constructor; equivalence is not compared.",
 ["src/tokio/mod.rs","src/tokio/read/mod.rs","src/base/write/mod.rs","src/base/read/seek.rs","src/base/read/stream.rs"],[("wrapping constructors","with_tokio in src/base/read/seek.rs, src/base/read/stream.rs, src/base/write/mod.rs")],
 ["with_tokio constructors"])
p("P24","Each compression method is encoded, identified and decoded consistently",
 "For every supported method, the method id recorded in an archive is the standard one for that method, the data is produced by that method's encoder (for whole entries, at the numeric level if one was requested), and readers select that method's decoder from the id. Uncompressed entries store their data verbatim.",
 ["inputs","configurations"],"all methods, levels and data within the stated bounds, with codecs modelled at their interface",
 "Tests decode one sample per method; the encoders' selection, level and ids over all inputs are not compared.",
 ["src/spec/compression.rs","src/base/write/entry_whole.rs","src/base/write/compressed_writer.rs","src/base/read/io/compressed.rs","src/spec/version.rs"],[("ids","src/spec/compression.rs"),("encoder selection","src/base/write/entry_whole.rs compress"),("encoder selection","src/base/write/compressed_writer.rs from_raw"),("decoder selection","src/base/read/io/compressed.rs new")],
 ["bytes written; decoded data; compress()"])
p("P25","Entry builders set exactly the requested attribute and nothing else",
 "Each entry-builder setting changes exactly the attribute it names, later settings win, and the built entry reports every set value. Setting Unix permissions replaces the permission half of the external attributes while preserving the other half, and an entry counts as a directory exactly when its textual name ends in a slash.",
 ["inputs","histories"],"all values and orders of builder settings within the stated bounds",
 "Tests set one or two attributes at a time.",
 ["src/entry/builder.rs","src/entry/mod.rs","src/file/builder.rs"],[("setters","src/entry/builder.rs"),("accessors","src/entry/mod.rs")],
 ["ZipEntryBuilder, ZipEntry"])
p("P26","Real codecs reproduce the data bit for bit",
 "For every supported compression method and level, decompressing what the method's encoder produced returns the original data bit for bit.",
 ["inputs"],"all data",
 "Sampling cannot cover all inputs of a compressor.",
 ["src/base/write/entry_whole.rs","src/base/read/io/compressed.rs"],[("external codec crates","async-compression and the C/Rust codecs below it")],
 ["write then read with real codecs"])
p("P27","The file-system reader behaves like the in-memory reader",
 "Opening an archive by path and reading its entries, also concurrently from clones, returns the same listing, data and errors as the in-memory reader over the file's bytes.",
 ["inputs","schedules"],"all file contents and interleavings",
 "Tests open a few fixed files sequentially.",
 ["src/tokio/read/fs.rs"],[("per-read file handle","src/tokio/read/fs.rs reader_with_entry")],
 ["tokio::read::fs::ZipFileReader"])
p("P28","Refused, failed or abandoned entries leave the rest of the archive intact",
 "An entry whose writing is refused, fails because the underlying writer reports an error, or is abandoned (its future or its streaming writer dropped) before it is complete is not listed in the archive. Every entry accepted before or after it is listed, in order, with exactly its metadata and data, once the archive is closed. Likewise, an entry that cannot be read or fails its CRC check does not keep a reader from returning every other entry correctly.",
 ["inputs","histories","faults"],"all contents and attributes of the accepted entries, every way of being refused, every position of a sink failure or of the drop, within the stated bounds",
 "Tests write only entries that succeed, and stop at the first error.",
 RW+["src/base/read/mem.rs","src/base/write/io/offset.rs"],[("recording an entry only once written","src/base/write/entry_whole.rs write"),("recording an entry only once closed","src/base/write/entry_stream.rs close"),("offsets from the bytes the sink took","src/base/write/io/offset.rs")],
 ["ZipFileWriter after a failed write_entry_whole / write_entry_stream / EntryStreamWriter; ZipFileReader::reader_with_entry"])
p("P29","A reader made from its parts reads as the one that opened the archive",
 "A reader constructed from a source and directory information obtained earlier from the same bytes, by any of the readers and wherever the source was left, lists the same entries and returns the same contents and the same errors as a reader that opened those bytes itself. Accessors and conversions hand back the source, bytes, path and directory they were given, unchanged.",
 ["inputs","histories"],"all archive contents, whole and damaged, every combination of readers the directory can come from and go to, every position the source can be left at, within the stated bounds",
 "No test makes a reader from parts; the constructors are public so that one directory can serve many readers.",
 RD+["src/tokio/read/fs.rs","src/file/mod.rs"],[("seekable reader from parts","src/base/read/seek.rs from_raw_parts"),("in-memory reader from parts","src/base/read/mem.rs from_raw_parts"),("positioning from scratch for each entry","src/entry/mod.rs seek_to_data_offset")],
 ["ZipFileReader::from_raw_parts, file, data, path, inner_mut, into_inner"])
p("P30","Flushing reaches the underlying writer; closing entries leaves it open",
 "When flushing a streamed entry completes, everything written to it before is in the underlying writer and that writer itself has been flushed afterwards; a failing flush is reported, and the archive goes on as if there had been no flush. Closing an entry, in either of the two ways, never closes the underlying writer. Closing the archive hands the same writer back, still open, holding exactly the archive, and the library only ever appends to it.",
 ["inputs","histories","schedules","faults"],"all contents, methods and modes, flush positions, and any one irregularity or failure of the underlying writer, within the stated bounds",
 "The tests write to vectors, for which flushing and closing have no effect.",
 RW+["src/base/write/compressed_writer.rs","src/base/write/io/offset.rs"],[("flush forwarding","src/base/write/entry_stream.rs poll_flush"),("keeping the sink open","src/base/write/compressed_writer.rs ShutdownIgnoredWriter"),("handing the sink back","src/base/write/mod.rs close")],
 ["calls made to the underlying AsyncWrite"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
