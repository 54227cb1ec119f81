#![allow(clippy::all)]
pub mod io;
pub mod oracle;
pub mod sym;
pub mod p_fs;
pub mod p_local;
pub mod p_misc;
pub mod p_parts;
pub mod p_read;
pub mod p_robust;
pub mod p_sched;
pub mod p_stream;
pub mod p_write;
pub mod p_zip64;
pub mod t_basic;

/// Asserts a condition; the id encodes file number and line, which the runner maps back to the source text.
#[macro_export]
macro_rules! check {
    ($file:expr, $c:expr) => {
        $crate::sym::assert_id($c, $file * 100_000 + line!())
    };
}

macro_rules! registry {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($f), $m::$f as fn())),*]
        }
        #[used]
        static KEEP: &[extern "C" fn()] = &[$($f),*];
    };
}

registry! {
    p_fs::h_fs_same,
    p_fs::h_fs_pend,
    p_fs::h_fs_short,
    p_fs::h_fs_worst,
    p_fs::h_fs_deep,
    p_fs::h_fs_damage,
    p_fs::h_fs_damage_any_deep,
    p_fs::h_fs_damage_deep,
    p_fs::h_fs_clone,
    p_fs::h_fs_fault,
    p_fs::h_fs_path,
    p_local::h_local_refused,
    p_local::h_local_fault,
    p_local::h_local_fault_short,
    p_local::h_local_fault_deep,
    p_local::h_local_drop,
    p_local::h_local_drop_short,
    p_local::h_local_abandoned,
    p_local::h_local_read,
    p_misc::h_text_new,
    p_misc::h_text_flags,
    p_misc::h_text_path,
    p_misc::h_text_comment,
    p_misc::h_text_both,
    p_misc::h_text_two,
    p_misc::h_text_alt,
    p_misc::h_text_alt_lengths,
    p_misc::h_text_alt_deep,
    p_misc::h_text_long,
    p_misc::h_text_archive,
    p_misc::h_len_name,
    p_misc::h_len_wide,
    p_misc::h_len_comment,
    p_misc::h_len_raw,
    p_misc::h_len_archive,
    p_misc::h_len_extra,
    p_misc::h_len_unicode,
    p_misc::h_date_set,
    p_misc::h_date_history,
    p_misc::h_date_archive,
    p_misc::h_date_to_chrono,
    p_misc::h_date_to_chrono_time,
    p_misc::h_date_to_chrono_deep,
    p_misc::h_date_from_chrono,
    p_misc::h_date_from_chrono_time,
    p_misc::h_extra_any,
    p_misc::h_extra_three,
    p_misc::h_extra_unicode,
    p_misc::h_extra_unicode_used,
    p_misc::h_extra_unicode_new,
    p_misc::h_extra_zip64,
    p_misc::h_extra_long,
    p_misc::h_build_one,
    p_misc::h_build_three,
    p_misc::h_build_level,
    p_misc::h_build_dir,
    p_misc::h_build_file,
    p_parts::h_parts_mem,
    p_parts::h_parts_seek,
    p_parts::h_parts_tokio,
    p_parts::h_sink_flush,
    p_parts::h_sink_flush_pend,
    p_parts::h_sink_flush_short,
    p_parts::h_sink_flush_fault,
    p_parts::h_sink_close,
    p_parts::h_sink_inner,
    p_read::h_cd_long,
    p_read::h_cd_fields,
    p_read::h_cd_zip64,
    p_read::h_cd_marker,
    p_read::h_end_zip64,
    p_read::h_end_zip64_ext,
    p_read::h_cd_many,
    p_read::h_cd_count,
    p_read::h_end_comment,
    p_read::h_end_comment_deep,
    p_read::h_end_bounds,
    p_read::h_end_long,
    p_read::h_end_every,
    p_read::h_end_none,
    p_read::h_end_none_deep,
    p_read::h_end_far,
    p_read::h_data_position,
    p_read::h_data_far,
    p_read::h_data_crc,
    p_read::h_data_hash,
    p_read::h_data_method,
    p_read::h_data_text,
    p_read::h_data_sizes,
    p_read::h_data_reads,
    p_read::h_data_long,
    p_read::h_data_beyond,
    p_read::h_ref_split,
    p_read::h_ref_split_zip64,
    p_read::h_ref_method,
    p_read::h_ref_write,
    p_read::h_ref_signature,
    p_read::h_ref_zip64_sig,
    p_read::h_ref_index,
    p_read::h_ind_position,
    p_read::h_ind_cancel,
    p_read::h_ind_cancel_short,
    p_read::h_local_read_fault,
    p_read::h_ind_seek,
    p_read::h_ind_mem,
    p_read::h_ind_clone,
    p_read::h_ind_join,
    p_robust::h_rob_raw,
    p_robust::h_rob_raw_deep,
    p_robust::h_rob_end,
    p_robust::h_rob_end_deep,
    p_robust::h_rob_dir_end,
    p_robust::h_rob_text,
    p_robust::h_rob_dir,
    p_robust::h_rob_dir_deep,
    p_robust::h_rob_extra,
    p_robust::h_rob_extra_deep,
    p_robust::h_srob_extra,
    p_robust::h_srob_extra_deep,
    p_robust::h_rob_typed,
    p_robust::h_srob_typed,
    p_robust::h_rob_zip64,
    p_robust::h_rob_at,
    p_robust::h_rob_at_seek,
    p_robust::h_rob_at_deep,
    p_robust::h_rob_data,
    p_robust::h_rob_data_seek,
    p_robust::h_rob_data_deep,
    p_robust::h_rob_long,
    p_robust::h_srob_long,
    p_robust::h_rob_declared,
    p_robust::h_srob_declared,
    p_robust::h_srob_raw,
    p_robust::h_srob_lfh,
    p_robust::h_srob_lfh_deep,
    p_robust::h_srob_desc,
    p_robust::h_cut_mem,
    p_robust::h_cut_seek,
    p_robust::h_cut_zip64,
    p_robust::h_cut_stream,
    p_robust::h_cut_lengths,
    p_robust::h_cut_comment,
    p_sched::h_sched_seek_pend,
    p_sched::h_sched_seek_pend_deep,
    p_sched::h_sched_seek_short,
    p_sched::h_sched_seek_short_deep,
    p_sched::h_sched_seek_both,
    p_sched::h_sched_seek_worst,
    p_sched::h_sched_stream_pend,
    p_sched::h_sched_stream_pend_deep,
    p_sched::h_sched_stream_short,
    p_sched::h_sched_stream_short_deep,
    p_sched::h_sched_stream_both,
    p_sched::h_sched_stream_worst,
    p_sched::h_sched_locate_short,
    p_sched::h_sched_locate_capped,
    p_sched::h_sched_locate_pend,
    p_sched::h_sched_write_pend,
    p_sched::h_sched_write_pend_deep,
    p_sched::h_sched_write_short,
    p_sched::h_sched_write_short_deep,
    p_sched::h_sched_write_both,
    p_sched::h_sched_write_worst,
    p_sched::h_sched_write_accept,
    p_sched::h_fault_seek,
    p_sched::h_fault_seek_pend,
    p_sched::h_fault_seek_short,
    p_sched::h_fault_stream,
    p_sched::h_fault_stream_pend,
    p_sched::h_fault_stream_short,
    p_sched::h_fault_locate,
    p_sched::h_fault_write,
    p_sched::h_fault_write_deep,
    p_sched::h_fault_stop,
    p_sched::h_fault_stop_short,
    p_sched::h_fault_write_short,
    p_sched::h_tokio_seek,
    p_sched::h_tokio_seek_short,
    p_sched::h_tokio_seek_worst,
    p_sched::h_tokio_seek_deep,
    p_sched::h_tokio_stream,
    p_sched::h_tokio_stream_short,
    p_sched::h_tokio_stream_worst,
    p_sched::h_tokio_stream_deep,
    p_sched::h_tokio_write,
    p_sched::h_tokio_write_short,
    p_sched::h_tokio_write_worst,
    p_sched::h_tokio_write_deep,
    p_sched::h_tokio_fault,
    p_sched::h_tokio_fault_read,
    p_stream::h_walk_history,
    p_stream::h_walk_empty,
    p_stream::h_walk_count,
    p_stream::h_walk_lengths,
    p_stream::h_walk_fields,
    p_stream::h_walk_zip64,
    p_stream::h_walk_large,
    p_stream::h_walk_big,
    p_stream::h_walk_written,
    p_stream::h_walk_none,
    p_stream::h_walk_inner,
    p_stream::h_desc_forms,
    p_stream::h_desc_rows,
    p_stream::h_desc_none,
    p_stream::h_desc_refuse,
    p_stream::h_desc_stored,
    p_stream::h_desc_cut,
    p_stream::h_walk_size,
    p_write::h_whole_mem,
    p_write::h_whole_seek,
    p_write::h_whole_text,
    p_write::h_whole_many,
    p_write::h_whole_sizes,
    p_write::h_whole_big,
    p_write::h_stream_split,
    p_write::h_stream_vectored,
    p_write::h_stream_mix,
    p_write::h_stream_text,
    p_write::h_stream_sizes,
    p_write::h_stream_writes,
    p_write::h_stream_big,
    p_write::h_stream_counts,
    p_write::h_struct_mix,
    p_write::h_struct_count,
    p_write::h_whole_count,
    p_write::h_stream_count,
    p_write::h_struct_text,
    p_write::h_struct_sizes,
    p_write::h_pre_verbatim,
    p_write::h_struct_same,
    p_write::h_struct_pre,
    p_write::h_pre_decode,
    p_write::h_pre_helpers,
    p_write::h_method_write,
    p_write::h_method_read,
    p_zip64::h_z64_one,
    p_zip64::h_z64_two,
    p_zip64::h_z64_three,
    p_zip64::h_z64_pre,
    p_zip64::h_z64_full,
    p_zip64::h_z64_pieces,
    p_zip64::h_local_count,
    p_zip64::h_local_count_stream,
    p_zip64::h_z64_count,
    p_zip64::h_z64_count_stream,
    p_zip64::h_z64_c1,
    p_zip64::h_z64_c2,
    p_zip64::h_z64_c3,
    p_zip64::h_z64_c4,
    p_zip64::h_z64_c5,
    p_zip64::h_z64_c6,
    p_zip64::h_z64_c7,
    t_basic::h_write1,
}
