"""Which harnesses decide which property, their bounds, and the witness points each must reach."""
import os, re

FILES = {1: "io.rs", 2: "t_basic.rs", 3: "oracle.rs", 4: "p_write.rs", 5: "p_zip64.rs", 6: "p_read.rs", 7: "p_robust.rs", 8: "p_sched.rs",
         9: "p_stream.rs", 10: "p_misc.rs", 11: "p_local.rs", 12: "p_fs.rs", 13: "p_parts.rs"}
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src")


def _docs():
    d = {}
    for f in os.listdir(SRC):
        doc = []
        for l in open(os.path.join(SRC, f)):
            if l.startswith("/// "):
                doc.append(l[4:].strip())
            elif l.startswith("pub fn h_"):
                d[re.match(r"pub fn (h_\w+)", l).group(1)] = " ".join(doc)
                doc = []
            elif l.strip():
                doc = []
    return d


DOCS = _docs()


def H(entry, *reach, **kw):
    return dict(entry=entry, what=DOCS.get(entry, ""), reach=list(reach) or [1], **kw)


def Hs(names, *reach, **kw):
    return [H(n, *reach, **kw) for n in names.split()]


BIG = dict(steps=4000000000, mem=8)
CODEC = "the codecs are replaced by a toy codec with the same interface (self-terminating, coded length different from plain length, method and level visible in its output)"

FSMODEL = ("tokio::fs::File (a thread pool and system calls) is replaced, also in replays, by a model of one file that delivers its bytes in order under any schedule; "
           "everything else of tokio is the real crate")
PROPS = {
    "P01": dict(
        bounds="archives of 0-3 whole entries; every value of attributes, timestamp; 0-3 symbolic bytes of data in each of six methods; names of 0-3 and "
               "comments of 0-2 symbolic bytes, as UTF-8 and raw; archive comments of 0-2 ASCII bytes; zip64 automatic, forced and forbidden; data sizes "
               "127-4099 and around 65536 and 131072, names 1-300, comments 213-512 bytes with symbolic ends; archives of 257, 512 and 1025 entries; in-memory, seekable and owned readers",
        outside="longer symbolic contents; real codecs (P26)",
        assumptions=[CODEC],
        harnesses=Hs("h_struct_same h_text_alt h_whole_count h_whole_mem h_whole_seek h_whole_text h_whole_sizes h_whole_big") + [H("h_whole_many", 1, 2)]),
    "P02": dict(
        bounds="0-5 symbolic bytes in every split into three writes with a flush at any place; up to three entries each whole or streamed, all zip64 modes; "
               "names of 0-3, comments of 0-2 symbolic bytes in both encodings; sizes around internal buffers and 64 KiB; up to 1025 writes of 1-3 bytes; many entries in one archive; single `write` calls trusting the count returned; vectored writes of three buffers",
        outside="longer symbolic contents; real codecs (P26)",
        assumptions=[CODEC],
        harnesses=Hs("h_stream_writes h_stream_count h_stream_split h_stream_mix h_stream_text h_stream_sizes h_stream_big h_stream_counts h_stream_vectored")),
    "P03": dict(
        bounds="up to three entries, whole or streamed, all methods and zip64 modes, symbolic metadata, names, comments and data, size classes up to 4099 bytes, many entries, and precompressed entries of any declared method, CRC and size; "
               "every byte of the archive is accounted for by an independent strict parser",
        outside="entries that need zip64 for their size (P04)",
        assumptions=[CODEC],
        harnesses=Hs("h_struct_same h_struct_pre h_struct_count h_struct_mix h_struct_text h_struct_sizes")),
    "P04": dict(
        bounds="one to three entries (two in the quick tier) whose data length is any 64-bit value up to 2^40, written whole, streamed in one or two pieces, or "
               "precompressed with any declared size; archives of 65534-65537 entries; text, attributes, comments and extra fields of entries at such sizes and positions; zip64 automatic, forced and forbidden",
        outside="data contents (lengths only: the writer forwards the slice without looking at it; its CRC is not modelled for such lengths); compressed methods at "
                "these lengths",
        harnesses=Hs("h_z64_one h_z64_two", 1, 2, 3) + Hs("h_z64_full") + Hs("h_z64_pre h_z64_pieces", 1, 2) + [H("h_z64_three", 1, 2, 3, deep=True, cost=9)]
        + [H("h_z64_c%d" % k, 2 if k in (4, 6) else 1, cost=5, deep=k == 7, **BIG) for k in range(1, 8)]
        + [H("h_z64_count", 1, 2, deep=True, cost=9, **BIG), H("h_z64_count_stream", 1, 2, deep=True, cost=9, **BIG)]),
    "P05": dict(
        bounds="1-3 directory records with every field symbolic, names 0-2, comments 0-1 bytes, zip64 fields with any saturated combination and values, zip64 end "
               "records with any values overriding any saturated fields; names, extra data and comments up to 65535 bytes; directories of up to 2049 records; zip64 end records with extensible data, with bytes before and after them, and archive comments of any length; both readers",
        outside="data right before the end record that happens to look like a zip64 locator (ambiguous in the format); longer text (P16, P17)",
        harnesses=Hs("h_cd_count h_cd_fields h_cd_zip64 h_cd_marker h_end_zip64 h_end_zip64_ext h_cd_many h_cd_long")),
    "P06": dict(
        bounds="every file of 0-8 bytes (0-12 thorough); end records, directory records, zip64 records, extra fields and local headers with every byte arbitrary, "
               "alone and combined, within the stated sizes; text of 22 lengths from 15 to 65530 bytes with characters of every width at every alignment; allocations over 512 KiB count as violations",
        outside="files that need more than the stated number of arbitrary bytes to go wrong; end records with several bytes equal to the last one of the signature; real codecs",
        assumptions=[CODEC],
        harnesses=[H("h_rob_raw", 3), H("h_rob_end", 2, 3), H("h_rob_dir_end", 1, 3), H("h_rob_text"), H("h_rob_dir", 1, 3, cost=8), H("h_rob_extra", 1, 3),
                   H("h_rob_typed", 2, 3), H("h_rob_zip64", 2, 3), H("h_rob_at", 1, 2), H("h_rob_at_seek", 1, 2), H("h_rob_data", 1, 2), H("h_rob_data_seek", 1, 2),
                   H("h_rob_long", 2), H("h_rob_declared"),
                   H("h_rob_raw_deep", 3, deep=True), H("h_rob_end_deep", 2, 3, deep=True), H("h_rob_extra_deep", 1, 3, deep=True), H("h_rob_at_deep", 1, 2, deep=True),
                   H("h_rob_data_deep", 1, 2, deep=True), H("h_rob_dir_deep", 1, 3, deep=True, cost=9)]),
    "P07": dict(
        bounds="every stream of 0, 5, ..., 35 bytes (thorough); local headers with every byte arbitrary (short name, extra data of 0 or 5 bytes) and 8 (thorough 14) bytes of name, extra data, contents and descriptor; typed "
               "extra fields; descriptors with any contents; long text as in P06",
        outside="streams that need more arbitrary bytes to go wrong; real codecs",
        assumptions=[CODEC],
        harnesses=[H("h_srob_extra", 2, 3), H("h_srob_typed", 2, 3), H("h_srob_lfh", 1, 2, 3, 4, cost=9), H("h_srob_desc", 1, 2, 3, 4),
                   H("h_srob_long", 2), H("h_srob_declared"), H("h_srob_extra_deep", 2, 3, deep=True), H("h_srob_raw", 1, 2, 3, 4, deep=True, cost=9), H("h_srob_lfh_deep", 1, 2, 3, 4, deep=True, cost=9)]),
    "P08": dict(
        bounds="end records followed by 0-6 (thorough: 0-12) symbolic comment bytes, at and around every buffer boundary of files of up to three buffers, comments up to 65535 bytes, "
               "files without a record or with one out of reach",
        outside="symbolic comments of more than 12 bytes",
        harnesses=Hs("h_end_comment h_end_bounds h_end_every h_end_none h_end_far") + [H("h_end_long", cost=8)] + Hs("h_end_comment_deep h_end_none_deep", deep=True)),
    "P09": dict(
        bounds="local headers with name and extra data of 0-3 bytes of their own, 0-3 symbolic data bytes, any recorded CRC, reads split anywhere, contents of "
               "sizes around internal buffers and 64 KiB, sizes that reach beyond the file; local names and extra data of up to 65535 bytes each; entries at any "
               "64-bit position of a source that is mostly a hole; up to 1025 reads of 1-3 bytes; any declared uncompressed size, every method and reader; the running hash asked for at any moments",
        outside="longer symbolic contents; real codecs",
        assumptions=[CODEC],
        harnesses=Hs("h_data_reads h_data_method h_data_position h_data_sizes h_data_beyond h_data_long h_data_far") + Hs("h_data_crc h_data_text", 1, 2, 3) + Hs("h_data_hash", 1, 2)),
    "P10": dict(
        bounds="every cut of archives of one or two entries with symbolic names, comments, extra data and contents, classic and zip64, all readers; lengths in the "
               "last record that run past the end",
        outside="archives whose names, comments or contents contain record signatures themselves",
        harnesses=Hs("h_cut_mem h_cut_seek h_cut_zip64 h_cut_lengths h_cut_comment h_cut_stream", 1, 2)),
    "P11": dict(
        bounds="one not-ready result, one short transfer of 1-3 bytes, or both, at any operation, and the never-ready one-byte-at-a-time schedule (thorough: two of "
               "each); archives with symbolic contents, classic and zip64, in and out of the order of their data, read completely by seekable and stream readers; end-record search over several buffers",
        outside="more than two irregularities, except the worst-case schedule",
        assumptions=[CODEC],
        harnesses=Hs("h_sched_seek_pend h_sched_seek_short h_sched_seek_both h_sched_seek_worst h_sched_stream_pend h_sched_stream_short h_sched_stream_both "
                     "h_sched_stream_worst h_sched_locate_short h_sched_locate_capped") + Hs("h_sched_seek_pend_deep h_sched_seek_short_deep h_sched_stream_pend_deep h_sched_stream_short_deep h_sched_locate_pend", deep=True)),
    "P12": dict(
        bounds="one not-ready result, one short transfer of 1-3 bytes, or both, at any operation, and the never-ready one-byte-at-a-time schedule (thorough: two of "
               "each); whole and streamed entries with symbolic contents",
        outside="more than two irregularities, except the worst-case schedule",
        assumptions=[CODEC],
        harnesses=Hs("h_sched_write_pend h_sched_write_short h_sched_write_both h_sched_write_worst h_sched_write_accept")
        + Hs("h_sched_write_pend_deep h_sched_write_short_deep", deep=True, cost=9)),
    "P13": dict(
        bounds="one failure at any operation, alone or together with one not-ready result or short transfer; a sink that stops accepting bytes at any point; all readers and the writer, whole and "
               "streamed entries",
        outside="more than one failure",
        assumptions=[CODEC],
        harnesses=Hs("h_fault_seek h_fault_seek_pend h_fault_seek_short h_fault_stream h_fault_stream_pend h_fault_stream_short h_fault_locate h_fault_write "
                     "h_fault_stop h_fault_stop_short h_fault_write_short", 1, 2) + Hs("h_fault_write_deep", 1, 2, deep=True)),
    "P14": dict(
        bounds="archives of up to three entries, every read/partial/finish/skip history, both iteration styles, every local header field symbolic, zip64 sizes, contents of 0-8 "
               "symbolic bytes and of sizes around internal buffers and 64 KiB, 129-513 entries, archives this crate wrote, empty archives",
        outside="longer histories with symbolic contents; real codecs",
        assumptions=[CODEC],
        harnesses=Hs("h_walk_history h_walk_empty h_walk_lengths h_walk_count", 1, 2) + Hs("h_walk_fields h_walk_zip64 h_walk_large h_walk_written h_walk_none h_walk_inner h_walk_size h_walk_big")),
    "P15": dict(
        bounds="descriptors with and without signature, 4 and 8 byte sizes, any values, one or two in a row; every flag word with every method, size and CRC; cuts inside a descriptor",
        outside="descriptors without signature whose CRC equals the signature (ambiguous in the format); 8 byte sizes without a local zip64 field",
        assumptions=[CODEC],
        harnesses=Hs("h_desc_forms h_desc_rows h_desc_none h_desc_stored h_desc_cut") + [H("h_desc_refuse", 1, 2)]),
    "P16": dict(
        bounds="strings of 0-4 bytes; names of 0-3 and comments of 0-2 bytes with any flags; one or two Unicode path or comment fields with any version, checksum and 0-2 bytes of text; "
               "names and comments of every kind (text, raw, text with alternative) written in every way and read by every reader; long text as in P06",
        outside="longer strings (P17 for lengths); empty text with an alternative (cannot be told from no text in the format)",
        harnesses=[H("h_text_new", 1, 2, 3), H("h_text_flags", 1, 3), H("h_text_path", 1, 2, 3), H("h_text_comment", 1, 2, 3), H("h_text_both", 1, 2, 3), H("h_text_two", 1, 2),
                   H("h_text_alt", 1, 2), H("h_text_alt_lengths", 1, 2), H("h_text_archive"), H("h_text_long", 1), H("h_text_alt_deep", 1, 2, deep=True)]),
    "P17": dict(
        bounds="lengths 0, 1, 255, 256, 65534-65537, 131071, 131072 for names, comments and archive comments, in one- and two-byte characters and raw; extra data around the limit, "
               "with and without what the writer adds; whole, streamed and precompressed entries",
        outside="other lengths",
        harnesses=[H("h_len_name", 1, 2), H("h_len_wide", 1, 2), H("h_len_comment", 1, 3), H("h_len_raw", 1, 2, 3), H("h_len_archive", 1, 2), H("h_len_extra", 1, 2), H("h_len_unicode", 1, 2)]),
    "P18": dict(
        bounds="any of the 2^32 stored timestamps, any component set to any 32-bit value; all sequences of three settings; chrono conversions for all dates of five years (all 128 "
               "thorough) and all times of a day; years far outside the range",
        outside="sequences of more than three settings follow from the single-setting step, which starts from an arbitrary timestamp",
        harnesses=Hs("h_date_set h_date_history h_date_archive h_date_from_chrono h_date_from_chrono_time") + [H("h_date_to_chrono", 1, 2), H("h_date_to_chrono_time", 1, 2, cost=8), H("h_date_to_chrono_deep", 1, 2, deep=True)]),
    "P19": dict(
        bounds="any disk numbers and counts, classic and zip64, any method id, any signature of directory record, local header, stream header and zip64 end record, any index; writing in every method and way",
        outside="",
        harnesses=Hs("h_ref_split h_ref_split_zip64 h_ref_method h_ref_write h_ref_index", 1, 2) + [H("h_ref_signature", 1, 2, 3, 4), H("h_ref_zip64_sig", 1, 2, 3)]),
    "P20": dict(
        bounds="1-3 fields of any unknown id with 0-3 symbolic bytes, Unicode fields of any version, zip64 fields, fields of up to 65000 bytes; read by every reader and written in every way; fields of entries which need zip64",
        outside="1-3 stray bytes at the end of the extra data that form no field",
        harnesses=Hs("h_extra_any h_extra_three h_extra_unicode h_extra_unicode_used h_extra_zip64 h_extra_long h_z64_full") + [H("h_extra_unicode_new", 1, 2)]),
    "P21": dict(
        bounds="0-3 arbitrary data bytes with any declared CRC, uncompressed size and method (one that is only readable included), whole and streamed in pieces; properly encoded data with right and wrong CRC",
        outside="longer data; real codecs",
        assumptions=[CODEC],
        harnesses=Hs("h_pre_verbatim h_pre_helpers") + [H("h_pre_decode", 1, 2)]),
    "P22": dict(
        bounds="archives of up to three entries with symbolic contents; any sequence of three partial or complete reads; two entry readers interleaved byte by byte, through clones "
               "and polled alternately; the source left at any position; a read dropped where the source is not ready",
        outside="more than two simultaneous readers or three reads",
        assumptions=[CODEC],
        harnesses=Hs("h_ind_seek h_ind_mem h_ind_clone h_ind_join h_ind_position") + Hs("h_ind_cancel h_ind_cancel_short", 1, 2)),
    "P23": dict(
        bounds="archives with symbolic contents; one not-ready result or short transfer anywhere, the worst-case schedule, one failure anywhere (thorough: two irregularities)",
        outside="more irregularities",
        assumptions=[CODEC],
        harnesses=Hs("h_tokio_seek h_tokio_seek_short h_tokio_seek_worst h_tokio_stream h_tokio_stream_short h_tokio_stream_worst h_tokio_write h_tokio_write_short "
                     "h_tokio_write_worst h_tokio_fault") + [H("h_tokio_fault_read", 1, 2)] + Hs("h_tokio_seek_deep h_tokio_stream_deep h_tokio_write_deep", deep=True)),
    "P24": dict(
        bounds="all six writable methods, whole and streamed; all seven readable methods; contents of up to 700 bytes with symbolic ends; every level (32-bit) for whole entries",
        outside="what the codecs do with the data (P26)",
        assumptions=[CODEC],
        harnesses=Hs("h_method_write h_method_read h_build_level")),
    "P25": dict(
        bounds="any setting on an entry with arbitrary attributes; any three settings in a row on a new builder; names of 0-4 bytes",
        outside="longer sequences follow from the single-setting step, which starts from arbitrary attributes",
        harnesses=Hs("h_build_one h_build_three h_build_file") + [H("h_build_dir", 1, 2)]),
    "P27": dict(
        bounds="archives of up to three entries with symbolic contents, whole and damaged (any one byte of the local header and contents; thorough: of the archive); one not-ready "
               "result or short read anywhere, the worst-case schedule, one failure anywhere including opening; two entries read at once through clones",
        outside="more irregularities; tokio's own file implementation, its thread pool and the kernel",
        assumptions=[CODEC, FSMODEL],
        harnesses=Hs("h_fs_same h_fs_pend h_fs_short h_fs_worst h_fs_path h_fs_damage h_fs_clone") + Hs("h_fs_fault", 1, 2)
        + Hs("h_fs_deep h_fs_damage_any_deep h_fs_damage_deep", deep=True)),
    "P28": dict(
        bounds="up to three entries with symbolic contents and attributes, one of them refused (over-long name or comment, zip64 needed but forbidden, the 65536th without zip64, a method without encoder), failed by one "
               "sink error at any operation (also after a short write), dropped at any point where the sink is not ready, or abandoned after 0-2 bytes; whole, "
               "streamed, precompressed; several methods and zip64 modes",
        outside="more than one such entry per archive",
        assumptions=[CODEC],
        harnesses=Hs("h_local_refused h_local_abandoned h_local_read") + Hs("h_local_fault h_local_fault_short h_local_drop h_local_drop_short h_local_read_fault", 1, 2)
        + [H("h_local_count", cost=5, **BIG), H("h_local_count_stream", cost=5, **BIG)]
        + Hs("h_local_fault_deep", 1, 2, deep=True)),
    "P29": dict(
        bounds="archives of up to three entries with symbolic contents, whole and damaged; directories obtained by the in-memory and the seekable reader, used by the in-memory, "
               "seekable, tokio and file-system readers; the source left at any position up to 199; paths with one byte of any value",
        outside="a directory of other bytes than the source's (documented as the caller's responsibility)",
        assumptions=[CODEC, FSMODEL],
        harnesses=Hs("h_parts_mem h_parts_seek h_parts_tokio", 2) + Hs("h_fs_path")),
    "P30": dict(
        bounds="one streamed entry of 0-3 symbolic bytes, flushed anywhere, stored and coded, with one not-ready result, short write or failure of the sink at any operation; "
               "two entries, whole or streamed and closed in either way, all zip64 modes and methods",
        outside="more irregularities; what codecs do when flushed",
        assumptions=[CODEC],
        harnesses=Hs("h_sink_flush h_sink_flush_pend h_sink_flush_short h_sink_close h_sink_inner") + Hs("h_sink_flush_fault", 1, 2)),
}

NOT_APPLICABLE = {
    "P26": "the codecs are C libraries (zlib-ng/miniz, bzip2, xz, zstd) and large table-driven Rust code; symbolic execution of a compressor and decompressor over "
           "symbolic data does not get past a few bytes, and nothing of it is this repository's code",
}
